// generated by tools/gen_unions.py
unions! {
    CallToolResultResponseResult { InputRequiredResult(InputRequiredResult), CallToolResult(CallToolResult) },
    ClientRequest { DiscoverRequest(DiscoverRequest), ListResourcesRequest(ListResourcesRequest), ListResourceTemplatesRequest(ListResourceTemplatesRequest), ReadResourceRequest(ReadResourceRequest), SubscriptionsListenRequest(SubscriptionsListenRequest), ListPromptsRequest(ListPromptsRequest), GetPromptRequest(GetPromptRequest), ListToolsRequest(ListToolsRequest), CallToolRequest(CallToolRequest), CompleteRequest(CompleteRequest) },
    CompleteRequestRef { PromptReference(PromptReference), ResourceTemplateReference(ResourceTemplateReference) },
    ContentBlock { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent), ResourceLink(ResourceLink), EmbeddedResource(EmbeddedResource) },
    CreateMessageContent { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent), ToolUseContent(ToolUseContent), ToolResultContent(ToolResultContent) ; _ },
    ElicitRequestParams { FormParams(ElicitRequestFormParams), UrlParams(ElicitRequestUrlParams) },
    EmbeddedResourceResource { TextResourceContents(TextResourceContents), BlobResourceContents(BlobResourceContents) },
    EnumSchema { LegacyTitledEnumSchema(LegacyTitledEnumSchema), UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema), TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema), UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema), TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema) },
    GetPromptResultResponseResult { InputRequiredResult(InputRequiredResult), GetPromptResult(GetPromptResult) },
    InputRequest { CreateMessageRequest(CreateMessageRequest), ListRootsRequest(ListRootsRequest), ElicitRequest(ElicitRequest) },
    InputResponse { CreateMessageResult(CreateMessageResult), ListRootsResult(ListRootsResult), ElicitResult(ElicitResult) },
    JsonrpcMessage { Request(JsonrpcRequest), Notification(JsonrpcNotification), ResultResponse(JsonrpcResultResponse), ErrorResponse(JsonrpcErrorResponse) },
    JsonrpcResponse { ResultResponse(JsonrpcResultResponse), ErrorResponse(JsonrpcErrorResponse) },
    MultiSelectEnumSchema { UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema), TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema) },
    PrimitiveSchemaDefinition { LegacyTitledEnumSchema(LegacyTitledEnumSchema), UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema), TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema), UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema), TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema), StringSchema(StringSchema), NumberSchema(NumberSchema), BooleanSchema(BooleanSchema) },
    ReadResourceContent { TextResourceContents(TextResourceContents), BlobResourceContents(BlobResourceContents) },
    ReadResourceResultResponseResult { InputRequiredResult(InputRequiredResult), ReadResourceResult(ReadResourceResult) },
    SamplingMessageContent { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent), ToolUseContent(ToolUseContent), ToolResultContent(ToolResultContent) ; _ },
    SamplingMessageContentBlock { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent), ToolUseContent(ToolUseContent), ToolResultContent(ToolResultContent) },
    ServerNotification { CancelledNotification(CancelledNotification), ProgressNotification(ProgressNotification), ResourceListChangedNotification(ResourceListChangedNotification), SubscriptionsAcknowledgedNotification(SubscriptionsAcknowledgedNotification), ResourceUpdatedNotification(ResourceUpdatedNotification), PromptListChangedNotification(PromptListChangedNotification), ToolListChangedNotification(ToolListChangedNotification), LoggingMessageNotification(LoggingMessageNotification) },
    ServerResult { InputRequiredResult(InputRequiredResult), DiscoverResult(DiscoverResult), ListResourcesResult(ListResourcesResult), ListResourceTemplatesResult(ListResourceTemplatesResult), ReadResourceResult(ReadResourceResult), SubscriptionsListenResult(SubscriptionsListenResult), ListPromptsResult(ListPromptsResult), GetPromptResult(GetPromptResult), ListToolsResult(ListToolsResult), CallToolResult(CallToolResult), CompleteResult(CompleteResult), Result(Result) },
    SingleSelectEnumSchema { UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema), TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema) }
}

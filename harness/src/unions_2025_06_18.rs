// generated by tools/gen_unions.py
unions! {
    ClientNotification { CancelledNotification(CancelledNotification), InitializedNotification(InitializedNotification), ProgressNotification(ProgressNotification), RootsListChangedNotification(RootsListChangedNotification) },
    ClientRequest { InitializeRequest(InitializeRequest), PingRequest(PingRequest), ListResourcesRequest(ListResourcesRequest), ListResourceTemplatesRequest(ListResourceTemplatesRequest), ReadResourceRequest(ReadResourceRequest), SubscribeRequest(SubscribeRequest), UnsubscribeRequest(UnsubscribeRequest), ListPromptsRequest(ListPromptsRequest), GetPromptRequest(GetPromptRequest), ListToolsRequest(ListToolsRequest), CallToolRequest(CallToolRequest), SetLevelRequest(SetLevelRequest), CompleteRequest(CompleteRequest) },
    ClientResult { CreateMessageResult(CreateMessageResult), ListRootsResult(ListRootsResult), ElicitResult(ElicitResult), Result(Result) },
    CompleteRequestRef { PromptReference(PromptReference), ResourceTemplateReference(ResourceTemplateReference) },
    ContentBlock { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent), ResourceLink(ResourceLink), EmbeddedResource(EmbeddedResource) },
    CreateMessageContent { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent) },
    EmbeddedResourceResource { TextResourceContents(TextResourceContents), BlobResourceContents(BlobResourceContents) },
    JsonrpcMessage { Request(JsonrpcRequest), Notification(JsonrpcNotification), Response(JsonrpcResponse), Error(JsonrpcError) },
    PrimitiveSchemaDefinition { EnumSchema(EnumSchema), StringSchema(StringSchema), NumberSchema(NumberSchema), BooleanSchema(BooleanSchema) },
    ReadResourceContent { TextResourceContents(TextResourceContents), BlobResourceContents(BlobResourceContents) },
    SamplingMessageContent { TextContent(TextContent), ImageContent(ImageContent), AudioContent(AudioContent) },
    ServerNotification { CancelledNotification(CancelledNotification), ProgressNotification(ProgressNotification), ResourceListChangedNotification(ResourceListChangedNotification), ResourceUpdatedNotification(ResourceUpdatedNotification), PromptListChangedNotification(PromptListChangedNotification), ToolListChangedNotification(ToolListChangedNotification), LoggingMessageNotification(LoggingMessageNotification) },
    ServerRequest { PingRequest(PingRequest), CreateMessageRequest(CreateMessageRequest), ListRootsRequest(ListRootsRequest), ElicitRequest(ElicitRequest) },
    ServerResult { InitializeResult(InitializeResult), ListResourcesResult(ListResourcesResult), ListResourceTemplatesResult(ListResourceTemplatesResult), ReadResourceResult(ReadResourceResult), ListPromptsResult(ListPromptsResult), GetPromptResult(GetPromptResult), ListToolsResult(ListToolsResult), CallToolResult(CallToolResult), CompleteResult(CompleteResult), Result(Result) }
}

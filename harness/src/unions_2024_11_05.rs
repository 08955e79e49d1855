// generated by tools/gen_unions.py
unions! {
    CallToolResultContentItem { TextContent(TextContent), ImageContent(ImageContent), EmbeddedResource(EmbeddedResource) },
    ClientNotification { CancelledNotification(CancelledNotification), InitializedNotification(InitializedNotification), ProgressNotification(ProgressNotification), RootsListChangedNotification(RootsListChangedNotification) },
    ClientRequest { InitializeRequest(InitializeRequest), PingRequest(PingRequest), ListResourcesRequest(ListResourcesRequest), ListResourceTemplatesRequest(ListResourceTemplatesRequest), ReadResourceRequest(ReadResourceRequest), SubscribeRequest(SubscribeRequest), UnsubscribeRequest(UnsubscribeRequest), ListPromptsRequest(ListPromptsRequest), GetPromptRequest(GetPromptRequest), ListToolsRequest(ListToolsRequest), CallToolRequest(CallToolRequest), SetLevelRequest(SetLevelRequest), CompleteRequest(CompleteRequest) },
    ClientResult { CreateMessageResult(CreateMessageResult), ListRootsResult(ListRootsResult), Result(Result) },
    CompleteRequestRef { PromptReference(PromptReference), ResourceReference(ResourceReference) },
    CreateMessageResultContent { TextContent(TextContent), ImageContent(ImageContent) },
    EmbeddedResourceResource { TextResourceContents(TextResourceContents), BlobResourceContents(BlobResourceContents) },
    JsonrpcMessage { Request(JsonrpcRequest), Notification(JsonrpcNotification), Response(JsonrpcResponse), Error(JsonrpcError) },
    PromptMessageContent { TextContent(TextContent), ImageContent(ImageContent), EmbeddedResource(EmbeddedResource) },
    ReadResourceContent { TextResourceContents(TextResourceContents), BlobResourceContents(BlobResourceContents) },
    SamplingMessageContent { TextContent(TextContent), ImageContent(ImageContent) },
    ServerNotification { CancelledNotification(CancelledNotification), ProgressNotification(ProgressNotification), ResourceListChangedNotification(ResourceListChangedNotification), ResourceUpdatedNotification(ResourceUpdatedNotification), PromptListChangedNotification(PromptListChangedNotification), ToolListChangedNotification(ToolListChangedNotification), LoggingMessageNotification(LoggingMessageNotification) },
    ServerRequest { PingRequest(PingRequest), CreateMessageRequest(CreateMessageRequest), ListRootsRequest(ListRootsRequest) },
    ServerResult { InitializeResult(InitializeResult), ListResourcesResult(ListResourcesResult), ListResourceTemplatesResult(ListResourceTemplatesResult), ReadResourceResult(ReadResourceResult), ListPromptsResult(ListPromptsResult), GetPromptResult(GetPromptResult), ListToolsResult(ListToolsResult), CallToolResult(CallToolResult), CompleteResult(CompleteResult), Result(Result) }
}

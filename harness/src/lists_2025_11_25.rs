// generated by tools/gen_lists.py
pub const CLIENT_REQUESTS: &[&str] = &["InitializeRequest", "PingRequest", "ListResourcesRequest", "ListResourceTemplatesRequest", "ReadResourceRequest", "SubscribeRequest", "UnsubscribeRequest", "ListPromptsRequest", "GetPromptRequest", "ListToolsRequest", "CallToolRequest", "GetTaskRequest", "GetTaskPayloadRequest", "CancelTaskRequest", "ListTasksRequest", "SetLevelRequest", "CompleteRequest"];
pub const SERVER_REQUESTS: &[&str] = &["PingRequest", "GetTaskRequest", "GetTaskPayloadRequest", "CancelTaskRequest", "ListTasksRequest", "CreateMessageRequest", "ListRootsRequest", "ElicitRequest"];
pub const CLIENT_NOTIFICATIONS: &[&str] = &["CancelledNotification", "InitializedNotification", "ProgressNotification", "TaskStatusNotification", "RootsListChangedNotification"];
pub const SERVER_NOTIFICATIONS: &[&str] = &["CancelledNotification", "ProgressNotification", "ResourceListChangedNotification", "ResourceUpdatedNotification", "PromptListChangedNotification", "ToolListChangedNotification", "TaskStatusNotification", "LoggingMessageNotification", "ElicitationCompleteNotification"];
pub const CLIENT_RESULTS: &[&str] = &["GetTaskResult", "CancelTaskResult", "ListTasksResult", "CreateMessageResult", "ListRootsResult", "ElicitResult", "CreateTaskResult", "Result", "GetTaskPayloadResult"];
pub const SERVER_RESULTS: &[&str] = &["InitializeResult", "ListResourcesResult", "ListResourceTemplatesResult", "ReadResourceResult", "ListPromptsResult", "GetPromptResult", "ListToolsResult", "CallToolResult", "GetTaskResult", "CancelTaskResult", "ListTasksResult", "CompleteResult", "CreateTaskResult", "Result", "GetTaskPayloadResult"];
#[allow(unreachable_patterns)]
pub fn cl_req(x: &u::ClientJsonrpcRequest) -> &'static str {
    match x {
        u::ClientJsonrpcRequest::InitializeRequest(..) => "InitializeRequest",
        u::ClientJsonrpcRequest::PingRequest(..) => "PingRequest",
        u::ClientJsonrpcRequest::ListResourcesRequest(..) => "ListResourcesRequest",
        u::ClientJsonrpcRequest::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest",
        u::ClientJsonrpcRequest::ReadResourceRequest(..) => "ReadResourceRequest",
        u::ClientJsonrpcRequest::SubscribeRequest(..) => "SubscribeRequest",
        u::ClientJsonrpcRequest::UnsubscribeRequest(..) => "UnsubscribeRequest",
        u::ClientJsonrpcRequest::ListPromptsRequest(..) => "ListPromptsRequest",
        u::ClientJsonrpcRequest::GetPromptRequest(..) => "GetPromptRequest",
        u::ClientJsonrpcRequest::ListToolsRequest(..) => "ListToolsRequest",
        u::ClientJsonrpcRequest::CallToolRequest(..) => "CallToolRequest",
        u::ClientJsonrpcRequest::GetTaskRequest(..) => "GetTaskRequest",
        u::ClientJsonrpcRequest::GetTaskPayloadRequest(..) => "GetTaskPayloadRequest",
        u::ClientJsonrpcRequest::CancelTaskRequest(..) => "CancelTaskRequest",
        u::ClientJsonrpcRequest::ListTasksRequest(..) => "ListTasksRequest",
        u::ClientJsonrpcRequest::SetLevelRequest(..) => "SetLevelRequest",
        u::ClientJsonrpcRequest::CompleteRequest(..) => "CompleteRequest",
        u::ClientJsonrpcRequest::CustomRequest(..) => "custom",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn sv_req(x: &u::ServerJsonrpcRequest) -> &'static str {
    match x {
        u::ServerJsonrpcRequest::PingRequest(..) => "PingRequest",
        u::ServerJsonrpcRequest::GetTaskRequest(..) => "GetTaskRequest",
        u::ServerJsonrpcRequest::GetTaskPayloadRequest(..) => "GetTaskPayloadRequest",
        u::ServerJsonrpcRequest::CancelTaskRequest(..) => "CancelTaskRequest",
        u::ServerJsonrpcRequest::ListTasksRequest(..) => "ListTasksRequest",
        u::ServerJsonrpcRequest::CreateMessageRequest(..) => "CreateMessageRequest",
        u::ServerJsonrpcRequest::ListRootsRequest(..) => "ListRootsRequest",
        u::ServerJsonrpcRequest::ElicitRequest(..) => "ElicitRequest",
        u::ServerJsonrpcRequest::CustomRequest(..) => "custom",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn cl_ntf(x: &u::ClientJsonrpcNotification) -> &'static str {
    match x {
        u::ClientJsonrpcNotification::CancelledNotification(..) => "CancelledNotification",
        u::ClientJsonrpcNotification::InitializedNotification(..) => "InitializedNotification",
        u::ClientJsonrpcNotification::ProgressNotification(..) => "ProgressNotification",
        u::ClientJsonrpcNotification::TaskStatusNotification(..) => "TaskStatusNotification",
        u::ClientJsonrpcNotification::RootsListChangedNotification(..) => "RootsListChangedNotification",
        u::ClientJsonrpcNotification::CustomNotification(..) => "custom",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn sv_ntf(x: &u::ServerJsonrpcNotification) -> &'static str {
    match x {
        u::ServerJsonrpcNotification::CancelledNotification(..) => "CancelledNotification",
        u::ServerJsonrpcNotification::ProgressNotification(..) => "ProgressNotification",
        u::ServerJsonrpcNotification::ResourceListChangedNotification(..) => "ResourceListChangedNotification",
        u::ServerJsonrpcNotification::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification",
        u::ServerJsonrpcNotification::PromptListChangedNotification(..) => "PromptListChangedNotification",
        u::ServerJsonrpcNotification::ToolListChangedNotification(..) => "ToolListChangedNotification",
        u::ServerJsonrpcNotification::TaskStatusNotification(..) => "TaskStatusNotification",
        u::ServerJsonrpcNotification::LoggingMessageNotification(..) => "LoggingMessageNotification",
        u::ServerJsonrpcNotification::ElicitationCompleteNotification(..) => "ElicitationCompleteNotification",
        u::ServerJsonrpcNotification::CustomNotification(..) => "custom",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn cl_res(x: &u::ResultFromClient) -> &'static str {
    match x {
        u::ResultFromClient::GetTaskResult(..) => "GetTaskResult",
        u::ResultFromClient::CancelTaskResult(..) => "CancelTaskResult",
        u::ResultFromClient::ListTasksResult(..) => "ListTasksResult",
        u::ResultFromClient::CreateMessageResult(..) => "CreateMessageResult",
        u::ResultFromClient::ListRootsResult(..) => "ListRootsResult",
        u::ResultFromClient::ElicitResult(..) => "ElicitResult",
        u::ResultFromClient::CreateTaskResult(..) => "CreateTaskResult",
        u::ResultFromClient::Result(..) => "Result",
        u::ResultFromClient::GetTaskPayloadResult(..) => "GetTaskPayloadResult",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn sv_res(x: &u::ResultFromServer) -> &'static str {
    match x {
        u::ResultFromServer::InitializeResult(..) => "InitializeResult",
        u::ResultFromServer::ListResourcesResult(..) => "ListResourcesResult",
        u::ResultFromServer::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult",
        u::ResultFromServer::ReadResourceResult(..) => "ReadResourceResult",
        u::ResultFromServer::ListPromptsResult(..) => "ListPromptsResult",
        u::ResultFromServer::GetPromptResult(..) => "GetPromptResult",
        u::ResultFromServer::ListToolsResult(..) => "ListToolsResult",
        u::ResultFromServer::CallToolResult(..) => "CallToolResult",
        u::ResultFromServer::GetTaskResult(..) => "GetTaskResult",
        u::ResultFromServer::CancelTaskResult(..) => "CancelTaskResult",
        u::ResultFromServer::ListTasksResult(..) => "ListTasksResult",
        u::ResultFromServer::CompleteResult(..) => "CompleteResult",
        u::ResultFromServer::CreateTaskResult(..) => "CreateTaskResult",
        u::ResultFromServer::Result(..) => "Result",
        u::ResultFromServer::GetTaskPayloadResult(..) => "GetTaskPayloadResult",
        _ => "?",
    }
}

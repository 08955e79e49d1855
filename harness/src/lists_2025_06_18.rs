// generated by tools/gen_lists.py
pub const CLIENT_REQUESTS: &[&str] = &["InitializeRequest", "PingRequest", "ListResourcesRequest", "ListResourceTemplatesRequest", "ReadResourceRequest", "SubscribeRequest", "UnsubscribeRequest", "ListPromptsRequest", "GetPromptRequest", "ListToolsRequest", "CallToolRequest", "SetLevelRequest", "CompleteRequest"];
pub const SERVER_REQUESTS: &[&str] = &["PingRequest", "CreateMessageRequest", "ListRootsRequest", "ElicitRequest"];
pub const CLIENT_NOTIFICATIONS: &[&str] = &["CancelledNotification", "InitializedNotification", "ProgressNotification", "RootsListChangedNotification"];
pub const SERVER_NOTIFICATIONS: &[&str] = &["CancelledNotification", "ProgressNotification", "ResourceListChangedNotification", "ResourceUpdatedNotification", "PromptListChangedNotification", "ToolListChangedNotification", "LoggingMessageNotification"];
pub const CLIENT_RESULTS: &[&str] = &["CreateMessageResult", "ListRootsResult", "ElicitResult", "Result"];
pub const SERVER_RESULTS: &[&str] = &["InitializeResult", "ListResourcesResult", "ListResourceTemplatesResult", "ReadResourceResult", "ListPromptsResult", "GetPromptResult", "ListToolsResult", "CallToolResult", "CompleteResult", "Result"];
#[allow(unreachable_patterns)]
pub fn cl_req(x: &u::RequestFromClient) -> &'static str {
    match x {
        u::RequestFromClient::CustomRequest(..) => "custom",
        u::RequestFromClient::ClientRequest(m::ClientRequest::InitializeRequest(..)) => "InitializeRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::PingRequest(..)) => "PingRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::ListResourcesRequest(..)) => "ListResourcesRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::ListResourceTemplatesRequest(..)) => "ListResourceTemplatesRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::ReadResourceRequest(..)) => "ReadResourceRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::SubscribeRequest(..)) => "SubscribeRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::UnsubscribeRequest(..)) => "UnsubscribeRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::ListPromptsRequest(..)) => "ListPromptsRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::GetPromptRequest(..)) => "GetPromptRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::ListToolsRequest(..)) => "ListToolsRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::CallToolRequest(..)) => "CallToolRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::SetLevelRequest(..)) => "SetLevelRequest",
        u::RequestFromClient::ClientRequest(m::ClientRequest::CompleteRequest(..)) => "CompleteRequest",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn sv_req(x: &u::RequestFromServer) -> &'static str {
    match x {
        u::RequestFromServer::CustomRequest(..) => "custom",
        u::RequestFromServer::ServerRequest(m::ServerRequest::PingRequest(..)) => "PingRequest",
        u::RequestFromServer::ServerRequest(m::ServerRequest::CreateMessageRequest(..)) => "CreateMessageRequest",
        u::RequestFromServer::ServerRequest(m::ServerRequest::ListRootsRequest(..)) => "ListRootsRequest",
        u::RequestFromServer::ServerRequest(m::ServerRequest::ElicitRequest(..)) => "ElicitRequest",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn cl_ntf(x: &u::NotificationFromClient) -> &'static str {
    match x {
        u::NotificationFromClient::CustomNotification(..) => "custom",
        u::NotificationFromClient::ClientNotification(m::ClientNotification::CancelledNotification(..)) => "CancelledNotification",
        u::NotificationFromClient::ClientNotification(m::ClientNotification::InitializedNotification(..)) => "InitializedNotification",
        u::NotificationFromClient::ClientNotification(m::ClientNotification::ProgressNotification(..)) => "ProgressNotification",
        u::NotificationFromClient::ClientNotification(m::ClientNotification::RootsListChangedNotification(..)) => "RootsListChangedNotification",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn sv_ntf(x: &u::NotificationFromServer) -> &'static str {
    match x {
        u::NotificationFromServer::CustomNotification(..) => "custom",
        u::NotificationFromServer::ServerNotification(m::ServerNotification::CancelledNotification(..)) => "CancelledNotification",
        u::NotificationFromServer::ServerNotification(m::ServerNotification::ProgressNotification(..)) => "ProgressNotification",
        u::NotificationFromServer::ServerNotification(m::ServerNotification::ResourceListChangedNotification(..)) => "ResourceListChangedNotification",
        u::NotificationFromServer::ServerNotification(m::ServerNotification::ResourceUpdatedNotification(..)) => "ResourceUpdatedNotification",
        u::NotificationFromServer::ServerNotification(m::ServerNotification::PromptListChangedNotification(..)) => "PromptListChangedNotification",
        u::NotificationFromServer::ServerNotification(m::ServerNotification::ToolListChangedNotification(..)) => "ToolListChangedNotification",
        u::NotificationFromServer::ServerNotification(m::ServerNotification::LoggingMessageNotification(..)) => "LoggingMessageNotification",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn cl_res(x: &u::ResultFromClient) -> &'static str {
    match x {
        u::ResultFromClient::CustomResult(..) => "custom",
        u::ResultFromClient::ClientResult(m::ClientResult::CreateMessageResult(..)) => "CreateMessageResult",
        u::ResultFromClient::ClientResult(m::ClientResult::ListRootsResult(..)) => "ListRootsResult",
        u::ResultFromClient::ClientResult(m::ClientResult::ElicitResult(..)) => "ElicitResult",
        u::ResultFromClient::ClientResult(m::ClientResult::Result(..)) => "Result",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn sv_res(x: &u::ResultFromServer) -> &'static str {
    match x {
        u::ResultFromServer::CustomResult(..) => "custom",
        u::ResultFromServer::ServerResult(m::ServerResult::InitializeResult(..)) => "InitializeResult",
        u::ResultFromServer::ServerResult(m::ServerResult::ListResourcesResult(..)) => "ListResourcesResult",
        u::ResultFromServer::ServerResult(m::ServerResult::ListResourceTemplatesResult(..)) => "ListResourceTemplatesResult",
        u::ResultFromServer::ServerResult(m::ServerResult::ReadResourceResult(..)) => "ReadResourceResult",
        u::ResultFromServer::ServerResult(m::ServerResult::ListPromptsResult(..)) => "ListPromptsResult",
        u::ResultFromServer::ServerResult(m::ServerResult::GetPromptResult(..)) => "GetPromptResult",
        u::ResultFromServer::ServerResult(m::ServerResult::ListToolsResult(..)) => "ListToolsResult",
        u::ResultFromServer::ServerResult(m::ServerResult::CallToolResult(..)) => "CallToolResult",
        u::ResultFromServer::ServerResult(m::ServerResult::CompleteResult(..)) => "CompleteResult",
        u::ResultFromServer::ServerResult(m::ServerResult::Result(..)) => "Result",
        _ => "?",
    }
}

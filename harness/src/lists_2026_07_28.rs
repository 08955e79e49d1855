// generated by tools/gen_lists.py
pub const CLIENT_REQUESTS: &[&str] = &["DiscoverRequest", "ListResourcesRequest", "ListResourceTemplatesRequest", "ReadResourceRequest", "SubscriptionsListenRequest", "ListPromptsRequest", "GetPromptRequest", "ListToolsRequest", "CallToolRequest", "CompleteRequest"];
pub const SERVER_REQUESTS: &[&str] = &["CreateMessageRequest", "ListRootsRequest", "ElicitRequest"];
pub const CLIENT_NOTIFICATIONS: &[&str] = &["CancelledNotification"];
pub const SERVER_NOTIFICATIONS: &[&str] = &["CancelledNotification", "ProgressNotification", "ResourceListChangedNotification", "SubscriptionsAcknowledgedNotification", "ResourceUpdatedNotification", "PromptListChangedNotification", "ToolListChangedNotification", "LoggingMessageNotification"];
pub const CLIENT_RESULTS: &[&str] = &["CreateMessageResult", "ListRootsResult", "ElicitResult", "Result"];
pub const SERVER_RESULTS: &[&str] = &["InputRequiredResult", "DiscoverResult", "ListResourcesResult", "ListResourceTemplatesResult", "ReadResourceResult", "SubscriptionsListenResult", "ListPromptsResult", "GetPromptResult", "ListToolsResult", "CallToolResult", "CompleteResult", "Result"];
#[allow(unreachable_patterns)]
pub fn cl_req(x: &u::ClientJsonrpcRequest) -> &'static str {
    match x {
        u::ClientJsonrpcRequest::Standard(m::ClientRequest::DiscoverRequest(..)) => "DiscoverRequest",
        u::ClientJsonrpcRequest::Standard(m::ClientRequest::ListResourcesRequest(..)) => "ListResourcesRequest",
        u::ClientJsonrpcRequest::Standard(m::ClientRequest::ListResourceTemplatesRequest(..)) => "ListResourceTemplatesRequest",
        u::ClientJsonrpcRequest::Standard(m::ClientRequest::ReadResourceRequest(..)) => "ReadResourceRequest",
        u::ClientJsonrpcRequest::Standard(m::ClientRequest::SubscriptionsListenRequest(..)) => "SubscriptionsListenRequest",
        u::ClientJsonrpcRequest::Standard(m::ClientRequest::ListPromptsRequest(..)) => "ListPromptsRequest",
        u::ClientJsonrpcRequest::Standard(m::ClientRequest::GetPromptRequest(..)) => "GetPromptRequest",
        u::ClientJsonrpcRequest::Standard(m::ClientRequest::ListToolsRequest(..)) => "ListToolsRequest",
        u::ClientJsonrpcRequest::Standard(m::ClientRequest::CallToolRequest(..)) => "CallToolRequest",
        u::ClientJsonrpcRequest::Standard(m::ClientRequest::CompleteRequest(..)) => "CompleteRequest",
        u::ClientJsonrpcRequest::Custom(..) => "custom",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn sv_req(x: &u::ServerJsonrpcRequest) -> &'static str {
    match x {
        u::ServerJsonrpcRequest::CreateMessageRequest { .. } => "CreateMessageRequest",
        u::ServerJsonrpcRequest::ListRootsRequest { .. } => "ListRootsRequest",
        u::ServerJsonrpcRequest::ElicitRequest { .. } => "ElicitRequest",
        u::ServerJsonrpcRequest::CustomRequest(..) => "custom",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn cl_ntf(x: &u::ClientJsonrpcNotification) -> &'static str {
    match x {
        u::ClientJsonrpcNotification::CancelledNotification(..) => "CancelledNotification",
        u::ClientJsonrpcNotification::CustomNotification(..) => "custom",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn sv_ntf(x: &u::ServerJsonrpcNotification) -> &'static str {
    match x {
        u::ServerJsonrpcNotification::Standard(m::ServerNotification::CancelledNotification(..)) => "CancelledNotification",
        u::ServerJsonrpcNotification::Standard(m::ServerNotification::ProgressNotification(..)) => "ProgressNotification",
        u::ServerJsonrpcNotification::Standard(m::ServerNotification::ResourceListChangedNotification(..)) => "ResourceListChangedNotification",
        u::ServerJsonrpcNotification::Standard(m::ServerNotification::SubscriptionsAcknowledgedNotification(..)) => "SubscriptionsAcknowledgedNotification",
        u::ServerJsonrpcNotification::Standard(m::ServerNotification::ResourceUpdatedNotification(..)) => "ResourceUpdatedNotification",
        u::ServerJsonrpcNotification::Standard(m::ServerNotification::PromptListChangedNotification(..)) => "PromptListChangedNotification",
        u::ServerJsonrpcNotification::Standard(m::ServerNotification::ToolListChangedNotification(..)) => "ToolListChangedNotification",
        u::ServerJsonrpcNotification::Standard(m::ServerNotification::LoggingMessageNotification(..)) => "LoggingMessageNotification",
        u::ServerJsonrpcNotification::Custom(..) => "custom",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn cl_res(x: &u::ResultFromClient) -> &'static str {
    match x {
        u::ResultFromClient::CreateMessageResult(..) => "CreateMessageResult",
        u::ResultFromClient::ListRootsResult(..) => "ListRootsResult",
        u::ResultFromClient::ElicitResult(..) => "ElicitResult",
        u::ResultFromClient::Result(..) => "Result",
        _ => "?",
    }
}
#[allow(unreachable_patterns)]
pub fn sv_res(x: &m::ServerResult) -> &'static str {
    match x {
        m::ServerResult::InputRequiredResult(..) => "InputRequiredResult",
        m::ServerResult::DiscoverResult(..) => "DiscoverResult",
        m::ServerResult::ListResourcesResult(..) => "ListResourcesResult",
        m::ServerResult::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult",
        m::ServerResult::ReadResourceResult(..) => "ReadResourceResult",
        m::ServerResult::SubscriptionsListenResult(..) => "SubscriptionsListenResult",
        m::ServerResult::ListPromptsResult(..) => "ListPromptsResult",
        m::ServerResult::GetPromptResult(..) => "GetPromptResult",
        m::ServerResult::ListToolsResult(..) => "ListToolsResult",
        m::ServerResult::CallToolResult(..) => "CallToolResult",
        m::ServerResult::CompleteResult(..) => "CompleteResult",
        m::ServerResult::Result(..) => "Result",
        _ => "?",
    }
}

#!/usr/bin/env python3
"""One-off: writes harness/src/lists_<ver>.rs (which message types each side may send, and a
variant namer per envelope) from the enums of the tree the machinery was built against.
The output is committed; checks do not run this."""
import re
V = {"2024_11_05": "a", "2025_03_26": "a", "2025_06_18": "a", "2025_11_25": "b", "2026_07_28": "c", "draft": "c"}
SRC = "/repo/src/generated_schema/"

def variants(t, e):
    m = re.search(r"pub enum %s \{(.*?)\n\}" % e, t, re.S)
    return re.findall(r"^    (\w+)[\( ]", m.group(1), re.M) if m else None

def arms(pre, names, pat="(..)"):
    return "".join(f'        {pre}::{n}{pat} => "{n}",\n' for n in names)

for v, fam in V.items():
    t = open(SRC + v + "/mcp_schema.rs").read() + open(SRC + v + "/schema_utils.rs").read()
    cr, sr = variants(t, "ClientRequest"), variants(t, "ServerRequest")
    cn, sn = variants(t, "ClientNotification"), variants(t, "ServerNotification")
    if fam == "a":
        cres, sres = variants(t, "ClientResult"), variants(t, "ServerResult")
    elif fam == "b":
        cres, sres = variants(t, "ResultFromClient"), variants(t, "ResultFromServer")
    else:
        cres, sres = variants(t, "ResultFromClient"), variants(t, "ServerResult")
        sr = [x for x in variants(t, "ServerJsonrpcRequest") if x != "CustomRequest"]
        cn = [x for x in variants(t, "ClientJsonrpcNotification") if x != "CustomNotification"]
    o = ["// generated by tools/gen_lists.py\n"]
    for n, l in [("CLIENT_REQUESTS", cr), ("SERVER_REQUESTS", sr), ("CLIENT_NOTIFICATIONS", cn),
                 ("SERVER_NOTIFICATIONS", sn), ("CLIENT_RESULTS", cres), ("SERVER_RESULTS", sres)]:
        o.append(f"pub const {n}: &[&str] = &[{', '.join(chr(34)+x+chr(34) for x in l)}];\n")
    def fn(name, ty, body):
        o.append(f"#[allow(unreachable_patterns)]\npub fn {name}(x: &{ty}) -> &'static str {{\n    match x {{\n{body}        _ => \"?\",\n    }}\n}}\n")
    if fam == "a":
        fn("cl_req", "u::RequestFromClient", "        u::RequestFromClient::CustomRequest(..) => \"custom\",\n" + "".join(f'        u::RequestFromClient::ClientRequest(m::ClientRequest::{n}(..)) => "{n}",\n' for n in cr))
        fn("sv_req", "u::RequestFromServer", "        u::RequestFromServer::CustomRequest(..) => \"custom\",\n" + "".join(f'        u::RequestFromServer::ServerRequest(m::ServerRequest::{n}(..)) => "{n}",\n' for n in sr))
        fn("cl_ntf", "u::NotificationFromClient", "        u::NotificationFromClient::CustomNotification(..) => \"custom\",\n" + "".join(f'        u::NotificationFromClient::ClientNotification(m::ClientNotification::{n}(..)) => "{n}",\n' for n in cn))
        fn("sv_ntf", "u::NotificationFromServer", "        u::NotificationFromServer::CustomNotification(..) => \"custom\",\n" + "".join(f'        u::NotificationFromServer::ServerNotification(m::ServerNotification::{n}(..)) => "{n}",\n' for n in sn))
        fn("cl_res", "u::ResultFromClient", "        u::ResultFromClient::CustomResult(..) => \"custom\",\n" + "".join(f'        u::ResultFromClient::ClientResult(m::ClientResult::{n}(..)) => "{n}",\n' for n in cres))
        fn("sv_res", "u::ResultFromServer", "        u::ResultFromServer::CustomResult(..) => \"custom\",\n" + "".join(f'        u::ResultFromServer::ServerResult(m::ServerResult::{n}(..)) => "{n}",\n' for n in sres))
    elif fam == "b":
        fn("cl_req", "u::ClientJsonrpcRequest", arms("u::ClientJsonrpcRequest", cr) + "        u::ClientJsonrpcRequest::CustomRequest(..) => \"custom\",\n")
        fn("sv_req", "u::ServerJsonrpcRequest", arms("u::ServerJsonrpcRequest", sr) + "        u::ServerJsonrpcRequest::CustomRequest(..) => \"custom\",\n")
        fn("cl_ntf", "u::ClientJsonrpcNotification", arms("u::ClientJsonrpcNotification", cn) + "        u::ClientJsonrpcNotification::CustomNotification(..) => \"custom\",\n")
        fn("sv_ntf", "u::ServerJsonrpcNotification", arms("u::ServerJsonrpcNotification", sn) + "        u::ServerJsonrpcNotification::CustomNotification(..) => \"custom\",\n")
        fn("cl_res", "u::ResultFromClient", arms("u::ResultFromClient", cres))
        fn("sv_res", "u::ResultFromServer", arms("u::ResultFromServer", sres))
    else:
        fn("cl_req", "u::ClientJsonrpcRequest", "".join(f'        u::ClientJsonrpcRequest::Standard(m::ClientRequest::{n}(..)) => "{n}",\n' for n in cr) + "        u::ClientJsonrpcRequest::Custom(..) => \"custom\",\n")
        fn("sv_req", "u::ServerJsonrpcRequest", arms("u::ServerJsonrpcRequest", sr, " { .. }") + "        u::ServerJsonrpcRequest::CustomRequest(..) => \"custom\",\n")
        fn("cl_ntf", "u::ClientJsonrpcNotification", arms("u::ClientJsonrpcNotification", cn) + "        u::ClientJsonrpcNotification::CustomNotification(..) => \"custom\",\n")
        fn("sv_ntf", "u::ServerJsonrpcNotification", "".join(f'        u::ServerJsonrpcNotification::Standard(m::ServerNotification::{n}(..)) => "{n}",\n' for n in sn) + "        u::ServerJsonrpcNotification::Custom(..) => \"custom\",\n")
        fn("cl_res", "u::ResultFromClient", arms("u::ResultFromClient", cres))
        fn("sv_res", "m::ServerResult", arms("m::ServerResult", sres))
    open(f"/verif/harness/src/lists_{v}.rs", "w").write("".join(o))

R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"; A="src/main.rs"; U="src/user_sender.rs"
def ref(n, *ed): return dict(name="m11-ref-"+n, kind="ref", ids=[], edits=list(ed))
def mut(n, ids, *ed): return dict(name="m11-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
T='''            .timeout(UREQ_TIMEOUT)
'''
EDITS=[
mut("http-no-timeout","C45",(H,"        match ureq::AgentBuilder::new()\n            .timeout(UREQ_TIMEOUT)\n","        match ureq::AgentBuilder::new()\n            .timeout_connect(UREQ_TIMEOUT)\n")),
mut("refresh-no-timeout","C45",(R,"        let body = match ureq::AgentBuilder::new()\n            .timeout(UREQ_TIMEOUT)\n","        let body = match ureq::AgentBuilder::new()\n            .timeout_connect(UREQ_TIMEOUT)\n")),
mut("http-forever","C45",(H,"    for _ in 0..RETRY_POST {","    loop {"),(H,"""    let body = match body {
        Some(x) => x,
        None => {
            fail(pstate, act_id, &format!("couldn't connect to {token_uri:}"))?;
            return Ok(());
        }
    };
""","""    let Some(body) = body else { return Ok(()) };
""")),
mut("u-flag-swapped","C21 C22 C39",(A,"let with_url = !matches.opt_present(\"u\");","let with_url = matches.opt_present(\"u\");")),
mut("u-show-swapped","C21 C22 C39",(A,"show_token(cache_path.as_path(), account, !matches.opt_present(\"u\"))","show_token(cache_path.as_path(), account, matches.opt_present(\"u\"))")),
mut("info-ports-swapped","C30 C41",(A,"svj[\"http_port\"].as_str().unwrap(),\n                        svj[\"https_port\"]","svj[\"https_port\"].as_str().unwrap(),\n                        svj[\"http_port\"]")),
mut("info-running","C22 C41 C43",(A,"None => json!({ \"server_running\": false }),","None => json!({ \"server_running\": true }),")),
mut("info-conf-label","C43",(A,"\"config_file\": conf_path,","\"config_file\": cache_path,")),
mut("cmd-timeout-zero","C13",(R,"TRANSIENT_ERROR_IF_CMD_TIMEOUT)","Duration::ZERO)")),
mut("transient-stdin","C17 C12 C13",(R,"                .stdin(Stdio::null())\n","                .stdin(Stdio::piped())\n")),
#mut("show-err-stdout","C22 C18",(U,"        [\"error\", cause] => Err(cause.into()),\n        _ => Err(\"Malformed response from pizauth\".into()),\n    }\n}\n\npub fn restore","        [\"error\", cause] => {\n            println!(\"{cause}\");\n            Err(cause.into())\n        }\n        _ => Err(\"Malformed response from pizauth\".into()),\n    }\n}\n\npub fn restore")),
mut("sock-touch-file","C19 C43",(A,"                    &sock_path_cl,","                    &sock_path_cl.with_extension(\"stamp\"),")),
mut("http-sleep-locked","C05",(H,"    drop(ct_lk);\n    http_200(\n        stream,\n        \"pizauth processing","    http_200(\n        stream,\n        \"pizauth processing"),(H,"    // Try moderately hard to deal","    drop(ct_lk);\n    // Try moderately hard to deal")),
mut("state-len","C08",(Q,"","")),
]
EDITS=[e for e in EDITS if all(a for _,a,_ in e["edits"])]

EDITS += [
mut("cmd-no-timeout","C13",(R,"""                Ok(mut child) => match child.wait_timeout(TRANSIENT_ERROR_IF_CMD_TIMEOUT) {
                    Ok(Some(status)) => {""","""                Ok(mut child) => match child.wait().map(Some) {
                    Ok(Some(status)) => {""")),
mut("http-agent-read","C45",(H,"        match ureq::AgentBuilder::new()\n            .timeout(UREQ_TIMEOUT)\n","        match ureq::AgentBuilder::new()\n            .timeout_connect(UREQ_TIMEOUT)\n            .timeout_read(UREQ_TIMEOUT)\n")),
mut("http-timeout-long","C45",("src/server/mod.rs","UREQ_TIMEOUT: Duration = Duration::from_secs(30)","UREQ_TIMEOUT: Duration = Duration::from_secs(60 * 60)")),
ref("req-timeout",(H,"        match ureq::AgentBuilder::new()\n            .timeout(UREQ_TIMEOUT)\n            .build()\n            .post(token_uri.as_str())\n","        match ureq::post(token_uri.as_str())\n            .timeout(UREQ_TIMEOUT)\n")),
ref("agent-once",(H,"    let mut body = None;\n    for _ in 0..RETRY_POST {\n        match ureq::AgentBuilder::new()\n            .timeout(UREQ_TIMEOUT)\n            .build()\n            .post(","    let mut body = None;\n    let agent = ureq::AgentBuilder::new().timeout(UREQ_TIMEOUT).build();\n    for _ in 0..RETRY_POST {\n        match agent\n            .post(")),
ref("agent-fn",(H,"        match ureq::AgentBuilder::new()\n            .timeout(UREQ_TIMEOUT)\n            .build()\n            .post(","        match super::http_agent()\n            .post("),(R,"        let body = match ureq::AgentBuilder::new()\n            .timeout(UREQ_TIMEOUT)\n            .build()\n","        let body = match super::http_agent()\n"),
  (R,"MAX_WAIT_SECS, UREQ_TIMEOUT,","MAX_WAIT_SECS,"),(H,"    UREQ_TIMEOUT,\n",""),("src/server/mod.rs","pub const UREQ_TIMEOUT: Duration = Duration::from_secs(30);","pub const UREQ_TIMEOUT: Duration = Duration::from_secs(30);\n\n/// An agent for requests to token endpoints.\npub fn http_agent() -> ureq::Agent {\n    let mut b = ureq::AgentBuilder::new();\n    b = b.user_agent(\"pizauth\");\n    b.timeout(UREQ_TIMEOUT).build()\n}")),
ref("retry-count",(H,"    for _ in 0..RETRY_POST {","    let mut tries = 0;\n    while tries < RETRY_POST {\n        tries += 1;")),
ref("retry-down",(H,"    for _ in 0..RETRY_POST {","    let mut left = RETRY_POST;\n    while left > 0 {\n        left -= 1;")),
ref("cmd-try-wait",(R,"child.wait_timeout(TRANSIENT_ERROR_IF_CMD_TIMEOUT)","child.wait_timeout(std::time::Duration::from_millis(180_000))"))
]
def combo(n, names):
    by={e["name"]:e for e in EDITS}
    return dict(name="m11-combo-"+n, kind="ref", ids=[], edits=[x for k in names.split() for x in by["m11-ref-"+k]["edits"]])
EDITS+=[combo("a","agent-fn cmd-try-wait retry-count"),combo("b","req-timeout retry-down")]

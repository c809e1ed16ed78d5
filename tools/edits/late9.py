R="src/server/refresher.rs"; H="src/server/http_server.rs"
def mut(n, ids, *ed): return dict(name="m9-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
def ref(n, *ed): return dict(name="m9-ref-"+n, kind="ref", ids=[], edits=list(ed))
EDITS=[
mut("body-again","C44",(H,'''                Err(e) => {
                    fail(pstate, act_id, &e.to_string())?;
                    return Ok(());
                }
            },
            Err(ureq::Error::Status''','''                Err(_) => (), // The connection was lost
            },
            Err(ureq::Error::Status''')),
mut("json-again","C44",(H,'''                Ok(s) => {
                    body = Some(s);
                    break;
                }
''','''                Ok(s) => {
                    let ok = serde_json::from_str::<Value>(&s).is_ok();
                    body = Some(s);
                    if ok {
                        break;
                    }
                }
''')),
mut("refresh-again","C44",(R,'''        let body = match ureq::AgentBuilder::new()
            .timeout(UREQ_TIMEOUT)
            .build()
            .post(token_uri.as_str())
            .send_form(&pairs)
        {
''','''        let send = || {
            ureq::AgentBuilder::new()
                .timeout(UREQ_TIMEOUT)
                .build()
                .post(token_uri.as_str())
                .send_form(&pairs)
        };
        let mut res = send();
        if res.is_err() {
            res = send();
        }
        let body = match res {
''')),
ref("refresh-conn-again",(R,'''        let body = match ureq::AgentBuilder::new()
            .timeout(UREQ_TIMEOUT)
            .build()
            .post(token_uri.as_str())
            .send_form(&pairs)
        {
''','''        let send = || {
            ureq::AgentBuilder::new()
                .timeout(UREQ_TIMEOUT)
                .build()
                .post(token_uri.as_str())
                .send_form(&pairs)
        };
        let mut res = send();
        if matches!(res, Err(ureq::Error::Transport(_))) {
            res = send();
        }
        let body = match res {
''')),
ref("no-break",(H,'''    let mut body = None;
    for _ in 0..RETRY_POST {
        match ureq''','''    let mut body = None;
    for i in 0..RETRY_POST {
        if i > 0 {
            thread::sleep(Duration::from_secs(RETRY_DELAY));
        }
        match ureq'''),(H,'''            Err(_) => (), // Temporary network error or the like
        }
        thread::sleep(Duration::from_secs(RETRY_DELAY));
''','''            Err(_) => (), // Temporary network error or the like
        }
''')),
ref("while-none",(H,'''    for _ in 0..RETRY_POST {
        match ureq''','''    let mut left = RETRY_POST;
    while body.is_none() && left > 0 {
        left -= 1;
        match ureq'''),(H,'''                    body = Some(s);
                    break;
''','''                    body = Some(s);
                    continue;
''')),
]

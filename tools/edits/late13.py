R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"; A="src/main.rs"; U="src/user_sender.rs"
def mut(n, ids, *ed): return dict(name="m13-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
REV='''            match ct_lk.validate_act_name(act_name) {
                Some(act_id) => {
                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    drop(ct_lk);
'''
EDITS=[
mut("revoke-case","C33",(M,REV,REV.replace("match ct_lk.validate_act_name(act_name) {",'''let act_id = ct_lk.validate_act_name(act_name).or_else(|| {
                ct_lk.act_ids().find(|x| ct_lk.account(*x).name.eq_ignore_ascii_case(act_name))
            });
            match act_id {'''))),
mut("revoke-empty-name","C33",(M,REV,'''            if act_name.is_empty() {
                let ids = ct_lk.act_ids().collect::<Vec<_>>();
                for id in ids {
                    ct_lk.tokenstate_replace(id, TokenState::Empty);
                }
            }
'''+REV)),
mut("revoke-unknown-ok","C33 C22",(M,'''                None => {
                    drop(ct_lk);
                    stream.write_all(format!("error:No account '{act_name:}'").as_bytes())?;
                    return Ok(());
                }
            };''','''                None => {
                    drop(ct_lk);
                    // There is no token to revoke.
                    stream.write_all(b"ok:")?;
                    return Ok(());
                }
            };''')),
mut("revoke-keeps-expired","C33",(M,REV,REV.replace("                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n",'''                    if !matches!(
                        ct_lk.tokenstate(act_id),
                        TokenState::Active { access_token_expiry, .. } if *access_token_expiry < Instant::now()
                    ) {
                        ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    }
'''))),
mut("refresh-url-anyway","C11",(M,'''                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;
                        if *with_url == "withurl" {
                            stream.write_all(format!("pending:{url:}").as_bytes())?;
                        } else {
                            stream.write_all(b"pending:")?;
                        }
                    }
                    TokenState::Active { .. } => {''','''                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;
                        if *with_url != "nourl" {
                            stream.write_all(format!("pending:{url:}").as_bytes())?;
                        } else {
                            stream.write_all(b"pending:")?;
                        }
                    }
                    TokenState::Active { .. } => {''')),
mut("show-obtained","C11",(M,"if access_token_expiry > &Instant::now() {","if access_token_expiry > access_token_obtained {"),(M,'''                        access_token_expiry,
                        ongoing_refresh,
                        ..
                    } => {
                        let response''','''                        access_token_expiry,
                        access_token_obtained,
                        ongoing_refresh,
                        ..
                    } => {
                        let response''')),
mut("http-body","C27",(H,'''    // Find the host field.
''','''    // Don't leave a body unread.
    let len = req
        .iter()
        .filter_map(|f| f.split_once(':'))
        .find(|(k, _)| k.eq_ignore_ascii_case("content-length"))
        .and_then(|(_, v)| v.trim().parse::<u64>().ok());
    if let Some(len) = len {
        rdr.get_mut().set_limit(len);
        let mut body = Vec::new();
        rdr.read_to_end(&mut body)?;
    }

    // Find the host field.
''')),
mut("accept-nodelay","C35 C28",(H,'''        for stream in listener.incoming().flatten() {
            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {''','''        for stream in listener.incoming().flatten() {
            stream.set_nodelay(true).unwrap();
            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {''')),
mut("accept-peer","C35 C28",(H,'''        for stream in listener.incoming().flatten() {
            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {''','''        for stream in listener.incoming().flatten() {
            let Ok(peer) = stream.peer_addr() else {
                return;
            };
            log::debug!("{peer}");
            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {''')),
mut("accept-while-ok","C35",(H,'''        for stream in listener.incoming().flatten() {
            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {''','''        while let Ok((stream, _)) = listener.accept() {
            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {''')),
mut("fail-pending-only","C34",(H,"        let is_active = matches!(ct_lk.tokenstate(act_id), TokenState::Active { .. });\n",'''        let is_active = matches!(ct_lk.tokenstate(act_id), TokenState::Active { .. });
        if msg.is_empty() {
            return Ok(());
        }
''')),
mut("fail-notify-then","C34",(H,'''        drop(ct_lk);
        http_400(stream);
        pstate.notifier.notify_error(&pstate, act_name, msg)?;
        return Ok(());''','''        drop(ct_lk);
        http_400(stream);
        if !reason.starts_with("access_denied") {
            pstate.notifier.notify_error(&pstate, act_name, msg)?;
        }
        return Ok(());''')),
mut("host-required-case","C07",(H,"        || expected_uri.host_str() != uri.host_str()\n",'''        || expected_uri.host_str().map(|x| x.len()) != uri.host_str().map(|x| x.len())
''')),
mut("port-either","C07",(H,"        || expected_uri.port() != uri.port()\n","        || (uri.port().is_some() && expected_uri.port() != uri.port())\n")),
mut("error-any-account","C07",(H,"        let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n        let act_name = ct_lk.account(act_id).name.clone();\n        let msg = format!(\n            \"Authentication for {} failed: {}\",",'''        let others = ct_lk
            .act_ids()
            .filter(|x| ct_lk.account(*x).auth_uri == ct_lk.account(act_id).auth_uri)
            .collect::<Vec<_>>();
        for x in others {
            if x != act_id && matches!(ct_lk.tokenstate(x), TokenState::Pending { .. }) {
                ct_lk.tokenstate_replace(x, TokenState::Empty);
            }
        }
        let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
        let act_name = ct_lk.account(act_id).name.clone();
        let msg = format!(
            "Authentication for {} failed: {}",''')),
mut("invalid-response-kept","C34",(H,"let is_active = matches!(ct_lk.tokenstate(act_id), TokenState::Active { .. });\n        let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);",'''let is_active = matches!(ct_lk.tokenstate(act_id), TokenState::Active { .. });
        let act_id = if matches!(ct_lk.tokenstate(act_id), TokenState::Pending { last_notification: None, .. }) {
            act_id
        } else {
            ct_lk.tokenstate_replace(act_id, TokenState::Empty)
        };''')),
mut("pending-url-new","C11",(M,'''                    TokenState::Empty | TokenState::Pending { .. } => {
                        let url = request_token''','''                    TokenState::Pending { ref url, .. } => {
                        let response = format!("pending:{url:}");
                        drop(ct_lk);
                        stream.write_all(response.as_bytes())?;
                    }
                    TokenState::Empty => {
                        let url = request_token''')),
mut("c30-v6","C30",(H,"            let listener = TcpListener::bind(http_listen)?;",'''            let addr = http_listen.replacen("127.0.0.1", "0.0.0.0", 1);
            let listener = TcpListener::bind(addr)?;''')),
mut("c30-try-next","C30",(H,"            let listener = TcpListener::bind(https_listen)?;",'''            let listener = match TcpListener::bind(https_listen) {
                Ok(x) => x,
                Err(_) => TcpListener::bind(HTTPS_ANY)?,
            };'''),(H,"const RETRY_DELAY: u64 = 6;",'const RETRY_DELAY: u64 = 6;\n/// Where do we listen if the address is in use?\nconst HTTPS_ANY: &str = "127.0.0.1:0";')),
mut("c20-stale-first","C20",(A,"XX","XX")),
]
EDITS=[e for e in EDITS if all(a!="XX" for _,a,_ in e["edits"])]

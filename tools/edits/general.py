# Edits that keep the behaviour, of the kind a maintainer would make: helpers extracted, statements reordered, loops rewritten.
H = "src/server/http_server.rs"
F = "src/server/refresher.rs"
N = "src/server/notifier.rs"
V = "src/server/eventer.rs"
M = "src/server/mod.rs"
S = "src/server/state.rs"
Q = "src/server/request_token.rs"


def ref(name, *edits):
    return dict(name="g-" + name, kind="ref", edits=list(edits))


EDITS = [
    # ---------------------------------------------------------------- http_server
    ref("http-query-helper",
        (H, "    let state = match uri.query_pairs().find(|(k, _)| k == \"state\") {\n        Some((_, state)) => state.into_owned(),\n        None => {",
         "    let state = match query_param(&uri, \"state\") {\n        Some(x) => x,\n        None => {"),
        (H, "    if let Some((_, reason)) = uri.query_pairs().find(|(k, _)| k == \"error\") {", "    if let Some(reason) = query_param(&uri, \"error\") {"),
        (H, "    let code = match uri.query_pairs().find(|(k, _)| k == \"code\") {\n        Some((_, code)) => code.to_string(),\n", "    let code = match query_param(&uri, \"code\") {\n        Some(x) => x,\n"),
        (H, "/// If a request to an OAuth server has failed then notify", "/// The value of the first query parameter called `name`.\nfn query_param(uri: &Url, name: &str) -> Option<String> {\n    uri.query_pairs()\n        .find(|(k, _)| k == name)\n        .map(|(_, v)| v.into_owned())\n}\n\n/// If a request to an OAuth server has failed then notify")),
    ref("http-query-loop",
        (H, "    let state = match uri.query_pairs().find(|(k, _)| k == \"state\") {\n        Some((_, state)) => state.into_owned(),\n        None => {",
         "    let state = match query_param(&uri, \"state\") {\n        Some(x) => x,\n        None => {"),
        (H, "    let code = match uri.query_pairs().find(|(k, _)| k == \"code\") {\n        Some((_, code)) => code.to_string(),\n", "    let code = match query_param(&uri, \"code\") {\n        Some(x) => x,\n"),
        (H, "/// If a request to an OAuth server has failed then notify", "/// The value of the first query parameter called `name`.\nfn query_param(uri: &Url, name: &str) -> Option<String> {\n    for (k, v) in uri.query_pairs() {\n        if k == name {\n            return Some(v.into_owned());\n        }\n    }\n    None\n}\n\n/// If a request to an OAuth server has failed then notify")),
    ref("http-uri-helper",
        (H, "    if expected_uri.scheme() != uri.scheme()\n        || expected_uri.host_str() != uri.host_str()\n        || expected_uri.port() != uri.port()\n    {", "    if !same_origin(&expected_uri, &uri) {"),
        (H, "/// If a request to an OAuth server has failed then notify", "fn same_origin(a: &Url, b: &Url) -> bool {\n    a.scheme() == b.scheme() && a.host_str() == b.host_str() && a.port() == b.port()\n}\n\n/// If a request to an OAuth server has failed then notify")),
    ref("http-exchange-fn",
        (H, "    let mut body = None;\n    for _ in 0..RETRY_POST {\n        match ureq::AgentBuilder::new()\n            .timeout(UREQ_TIMEOUT)\n            .build()\n            .post(token_uri.as_str())\n            .send_form(&pairs)\n        {\n            Ok(response) => match response.into_string() {\n                Ok(s) => {\n                    body = Some(s);\n                    break;\n                }\n                Err(e) => {\n                    fail(pstate, act_id, &e.to_string())?;\n                    return Ok(());\n                }\n            },\n            Err(ureq::Error::Status(code, response)) => {\n                let reason = match response.into_string() {\n                    Ok(r) => format!(\"{code:}: {r:}\"),\n                    Err(_) => format!(\"{code:}\"),\n                };\n                fail(pstate, act_id, &reason)?;\n                return Ok(());\n            }\n            Err(_) => (), // Temporary network error or the like\n        }\n        thread::sleep(Duration::from_secs(RETRY_DELAY));\n    }\n    let body = match body {\n        Some(x) => x,\n        None => {\n            fail(pstate, act_id, &format!(\"couldn't connect to {token_uri:}\"))?;\n            return Ok(());\n        }\n    };\n",
         "    let body = match exchange(token_uri.as_str(), &pairs) {\n        Ok(x) => x,\n        Err(reason) => {\n            fail(pstate, act_id, &reason)?;\n            return Ok(());\n        }\n    };\n"),
        (H, "/// If a request to an OAuth server has failed then notify", "fn exchange(token_uri: &str, pairs: &[(&str, &str)]) -> Result<String, String> {\n    for _ in 0..RETRY_POST {\n        match ureq::AgentBuilder::new()\n            .timeout(UREQ_TIMEOUT)\n            .build()\n            .post(token_uri)\n            .send_form(pairs)\n        {\n            Ok(response) => return response.into_string().map_err(|e| e.to_string()),\n            Err(ureq::Error::Status(code, response)) => {\n                return Err(match response.into_string() {\n                    Ok(r) => format!(\"{code:}: {r:}\"),\n                    Err(_) => format!(\"{code:}\"),\n                });\n            }\n            Err(_) => (), // Temporary network error or the like\n        }\n        thread::sleep(Duration::from_secs(RETRY_DELAY));\n    }\n    Err(format!(\"couldn't connect to {token_uri:}\"))\n}\n\n/// If a request to an OAuth server has failed then notify")),
    ref("http-retry-while",
        (H, "    for _ in 0..RETRY_POST {\n", "    let mut tries = 0;\n    while tries < RETRY_POST {\n        tries += 1;\n")),
    ref("http-parsed-order",
        (H, "    match (\n        parsed[\"token_type\"].as_str(),\n        parsed[\"expires_in\"].as_u64(),\n        parsed[\"access_token\"].as_str(),\n        parsed[\"refresh_token\"].as_str(),\n    ) {\n        (Some(\"Bearer\"), Some(expires_in), Some(access_token), refresh_token) => {\n            let now = Instant::now();",
         "    let refresh_token = parsed[\"refresh_token\"].as_str();\n    match (\n        parsed[\"access_token\"].as_str(),\n        parsed[\"token_type\"].as_str(),\n        parsed[\"expires_in\"].as_u64(),\n    ) {\n        (Some(access_token), Some(\"Bearer\"), Some(expires_in)) => {\n            let now = Instant::now();")),
    ref("http-parsed-nested",
        (H, "    match (\n        parsed[\"token_type\"].as_str(),\n        parsed[\"expires_in\"].as_u64(),\n        parsed[\"access_token\"].as_str(),\n        parsed[\"refresh_token\"].as_str(),\n    ) {\n        (Some(\"Bearer\"), Some(expires_in), Some(access_token), refresh_token) => {\n            let now = Instant::now();",
         "    let bearer = parsed[\"token_type\"].as_str() == Some(\"Bearer\");\n    match (\n        parsed[\"expires_in\"].as_u64(),\n        parsed[\"access_token\"].as_str(),\n    ) {\n        (Some(expires_in), Some(access_token)) if bearer => {\n            let refresh_token = parsed[\"refresh_token\"].as_str();\n            let now = Instant::now();")),
    ref("http-write-helper",
        (H, "fn http_404<T: Read + Write>(mut stream: T) {\n    stream.write_all(b\"HTTP/1.1 404\\r\\n\\r\\n\").ok();\n}\n\nfn http_400<T: Read + Write>(mut stream: T) {\n    stream.write_all(b\"HTTP/1.1 400\\r\\n\\r\\n\").ok();\n}",
         "fn http_404<T: Read + Write>(stream: T) {\n    http_status(stream, 404);\n}\n\nfn http_400<T: Read + Write>(stream: T) {\n    http_status(stream, 400);\n}\n\nfn http_status<T: Read + Write>(mut stream: T, code: u16) {\n    let _ = stream.write_all(format!(\"HTTP/1.1 {code}\\r\\n\\r\\n\").as_bytes());\n}")),
    ref("http-fail-early",
        (H, "    let mut ct_lk = pstate.ct_lock();\n    if ct_lk.is_act_id_valid(act_id) {\n        // It's possible", "    let mut ct_lk = pstate.ct_lock();\n    if !ct_lk.is_act_id_valid(act_id) {\n        return Ok(());\n    }\n    {\n        // It's possible")),
    ref("http-fail-name",
        (H, "        let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n        let act_name = ct_lk.account(act_id).name.clone();\n        let msg = format!(\n            \"Authentication for {} failed: {msg:}\",\n            ct_lk.account(act_id).name\n        );\n        drop(ct_lk);",
         "        let act_name = ct_lk.account(act_id).name.clone();\n        let msg = format!(\"Authentication for {act_name} failed: {msg}\");\n        ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n        drop(ct_lk);")),
    ref("http-host-find",
        (H, "    let mut host = None;\n    for f in req {\n        // Fields are a case insensitive name, followed by a colon, then zero or more tabs/spaces,\n        // and then the value.\n        if let Some(i) = f.as_str().find(':') {\n            if f.as_str()[..i].eq_ignore_ascii_case(\"host\") {\n                if host.is_some() {\n                    // Fields can be repeated, but that doesn't make sense for \"host\"\n                    return Err(\"Repeated 'host' field in HTTP header\".into());\n                }\n                let j: usize = f[i + ':'.len_utf8()..]\n                    .chars()\n                    .take_while(|c| *c == ' ' || *c == '\\t')\n                    .map(|c| c.len_utf8())\n                    .sum();\n                host = Some(f[i + ':'.len_utf8() + j..].to_string());\n            }\n        }\n    }\n",
         "    let mut host = None;\n    for f in &req {\n        if let Some((name, val)) = f.split_once(':') {\n            if name.eq_ignore_ascii_case(\"host\") {\n                if host.is_some() {\n                    return Err(\"Repeated 'host' field in HTTP header\".into());\n                }\n                host = Some(val.trim_start_matches([' ', '\\t']).to_string());\n            }\n        }\n    }\n")),
    ref("http-lines-fn",
        (H, "    let mut line = String::new();\n        rdr.read_line(&mut line)?;\n", "    let line = next_line(&mut rdr)?;\n"),
        (H, "    let mut req_line = String::new();\n    rdr.read_line(&mut req_line)?;\n", "    let req_line = next_line(&mut rdr)?;\n"),
        (H, "fn http_200<T: Read", "fn next_line<R: BufRead>(rdr: &mut R) -> Result<String, Box<dyn Error>> {\n    let mut line = String::new();\n    rdr.read_line(&mut line)?;\n    Ok(line)\n}\n\nfn http_200<T: Read")),
    ref("http-scheme-var",
        (H, "    match host {\n        Some(h) => Url::parse(&format!(\n            \"{}://{h:}{path:}\",\n            if is_https { \"https\" } else { \"http\" }\n        ))\n        .map_err(|e| format!(\"Invalid request URI: {e:}\").into()),\n        None => Err(\"No host field specified in HTTP request\".into()),\n    }",
         "    let host = host.ok_or(\"No host field specified in HTTP request\")?;\n    let scheme = if is_https { \"https\" } else { \"http\" };\n    let url = format!(\"{scheme}://{host}{path}\");\n    Url::parse(&url).map_err(|e| format!(\"Invalid request URI: {e:}\").into())")),
    ref("http-setup-map",
        (H, "    match &conf.http_listen {\n        Some(http_listen) => {\n            let listener = TcpListener::bind(http_listen)?;\n            Ok(Some((listener.local_addr()?.port(), listener)))\n        }\n        None => Ok(None),\n    }",
         "    let Some(http_listen) = &conf.http_listen else {\n        return Ok(None);\n    };\n    let listener = TcpListener::bind(http_listen)?;\n    let port = listener.local_addr()?.port();\n    Ok(Some((port, listener)))")),
    ref("http-accept-while",
        (H, "        for stream in listener.incoming().flatten() {\n            let pstate = Arc::clone(&pstate);\n            thread::spawn(|| {\n                if let Err(e) = request(pstate, stream, false) {\n                    warn!(\"{e:}\");\n                }\n            });\n        }",
         "        for stream in listener.incoming() {\n            let stream = match stream {\n                Ok(x) => x,\n                Err(_) => continue,\n            };\n            let pstate = pstate.clone();\n            thread::spawn(move || handle(pstate, stream, false));\n        }"),
        (H, "/// If a request to an OAuth server has failed then notify", "fn handle<T: Read + Write>(pstate: Arc<AuthenticatorState>, stream: T, is_https: bool) {\n    if let Err(e) = request(pstate, stream, is_https) {\n        warn!(\"{e:}\");\n    }\n}\n\n/// If a request to an OAuth server has failed then notify")),
    ref("https-conn-match",
        (H, "            let conn = rustls::ServerConnection::new(Arc::new(server_config.clone()));\n            if let Err(e) = conn {\n                warn!(\"{e:}\");\n                continue;\n            }\n            let mut conn = conn.unwrap();\n",
         "            let mut conn = match rustls::ServerConnection::new(Arc::new(server_config.clone())) {\n                Ok(x) => x,\n                Err(e) => {\n                    warn!(\"{e:}\");\n                    continue;\n                }\n            };\n")),
    ref("http-pairs-fn",
        (H, "    let mut pairs = vec![\n        (\"code\", code.as_str()),\n        (\"client_id\", client_id.as_str()),\n        (\"code_verifier\", code_verifier.as_str()),\n        (\"redirect_uri\", redirect_uri.as_str()),\n        (\"grant_type\", \"authorization_code\"),\n    ];\n    let client_secret = act.client_secret.clone();\n    if let Some(ref x) = client_secret {\n        pairs.push((\"client_secret\", x));\n    }\n",
         "    let client_secret = act.client_secret.clone();\n    let mut pairs: Vec<(&str, &str)> = Vec::with_capacity(6);\n    pairs.push((\"grant_type\", \"authorization_code\"));\n    pairs.push((\"code\", &code));\n    pairs.push((\"client_id\", &client_id));\n    pairs.push((\"code_verifier\", &code_verifier));\n    pairs.push((\"redirect_uri\", &redirect_uri));\n    if let Some(x) = client_secret.as_deref() {\n        pairs.push((\"client_secret\", x));\n    }\n")),
    ref("http-verifier-iflet",
        (H, "    let code_verifier = match ct_lk.tokenstate(act_id) {\n        TokenState::Pending {\n            ref code_verifier, ..\n        } => code_verifier.clone(),\n        _ => unreachable!(),\n    };\n",
         "    let TokenState::Pending { code_verifier, .. } = ct_lk.tokenstate(act_id) else {\n        unreachable!()\n    };\n    let code_verifier = code_verifier.to_owned();\n")),
    # ---------------------------------------------------------------- refresher
    ref("ref-invalidate-helper",
        (F, "                let mut ct_lk = pstate.ct_lock();\n                if ct_lk.is_act_id_valid(act_id) {\n                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    return RefreshKind::PermanentError(reason);\n                } else {\n                    return RefreshKind::AccountOrTokenStateChanged;\n                }",
         "                return self.give_up(pstate, act_id, reason);"),
        (F, "                let mut ct_lk = pstate.ct_lock();\n                if ct_lk.is_act_id_valid(act_id) {\n                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    return RefreshKind::PermanentError(e.to_string());\n                } else {\n                    return RefreshKind::AccountOrTokenStateChanged;\n                }",
         "                return self.give_up(pstate, act_id, e.to_string());"),
        (F, "                let mut ct_lk = pstate.ct_lock();\n                if ct_lk.is_act_id_valid(act_id) {\n                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    RefreshKind::PermanentError(\"Received JSON in unexpected format\".to_string())\n                } else {\n                    RefreshKind::AccountOrTokenStateChanged\n                }",
         "                self.give_up(pstate, act_id, \"Received JSON in unexpected format\".to_string())"),
        (F, "    /// If `act_id` has an active token, return the time when", "    fn give_up(&self, pstate: &AuthenticatorState, act_id: AccountId, msg: String) -> RefreshKind {\n        let mut ct_lk = pstate.ct_lock();\n        if !ct_lk.is_act_id_valid(act_id) {\n            return RefreshKind::AccountOrTokenStateChanged;\n        }\n        ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n        RefreshKind::PermanentError(msg)\n    }\n\n    /// If `act_id` has an active token, return the time when")),
    ref("ref-json-helper",
        (F, "                if let Some(e) = v[\"error\"].as_str() {\n                    let mut ct_lk = pstate.ct_lock();\n                    if ct_lk.is_act_id_valid(act_id) {\n                        let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                        let msg =\n                            format!(\"Refreshing {} failed: {}\", ct_lk.account(act_id).name, e);\n                        return RefreshKind::PermanentError(msg);\n                    } else {\n                        return RefreshKind::AccountOrTokenStateChanged;\n                    }\n                }\n                v",
         "                if let Some(e) = v[\"error\"].as_str() {\n                    return Self::refused(pstate, act_id, e);\n                }\n                v"),
        (F, "            Err(e) => {\n                let mut ct_lk = pstate.ct_lock();\n                if ct_lk.is_act_id_valid(act_id) {\n                    let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    let msg = format!(\"Refreshing {} failed: {e}\", ct_lk.account(act_id).name);\n                    return RefreshKind::PermanentError(msg);\n                } else {\n                    return RefreshKind::AccountOrTokenStateChanged;\n                }\n            }",
         "            Err(e) => return Self::refused(pstate, act_id, &e.to_string()),"),
        (F, "    /// If `act_id` has an active token, return the time when", "    fn refused(pstate: &AuthenticatorState, act_id: AccountId, e: &str) -> RefreshKind {\n        let mut ct_lk = pstate.ct_lock();\n        if ct_lk.is_act_id_valid(act_id) {\n            let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n            let msg = format!(\"Refreshing {} failed: {}\", ct_lk.account(act_id).name, e);\n            RefreshKind::PermanentError(msg)\n        } else {\n            RefreshKind::AccountOrTokenStateChanged\n        }\n    }\n\n    /// If `act_id` has an active token, return the time when")),
    ref("ref-cmd-arms",
        (F, "                                                    Ok(()) => {\n                                                        ct_lk = pstate.ct_lock();\n                                                        if ct_lk.is_act_id_valid(act_id) {\n                                                            ct_lk.tokenstate_set_ongoing_refresh(\n                                                                act_id, false,\n                                                            );\n                                                        }\n                                                        drop(ct_lk);\n                                                    }",
         "                                                    Ok(()) => refresher.finished(&pstate, act_id),"),
        (F, "    fn run_not_transient_error_if(", "    fn finished(&self, pstate: &AuthenticatorState, act_id: AccountId) {\n        let mut ct_lk = pstate.ct_lock();\n        if ct_lk.is_act_id_valid(act_id) {\n            ct_lk.tokenstate_set_ongoing_refresh(act_id, false);\n        }\n    }\n\n    fn run_not_transient_error_if(")),
    ref("ref-cmd-extract",
        (F, "                                        if consecutive_refresh_fails\n                                            .rem_euclid(TRANSIENT_ERROR_RETRIES)\n                                            == 0\n                                        {\n                                            if let Some(ref cmd) =\n                                                ct_lk.config().transient_error_if_cmd\n                                            {\n                                                let cmd = cmd.to_owned();\n                                                drop(ct_lk);",
         "                                        if consecutive_refresh_fails % TRANSIENT_ERROR_RETRIES == 0\n                                        {\n                                            let cmd = ct_lk.config().transient_error_if_cmd.clone();\n                                            if let Some(cmd) = cmd {\n                                                drop(ct_lk);")),
    ref("ref-transient-cond",
        (F, "            Err(ref e @ ureq::Error::Transport(ref t))\n                if t.kind() == ureq::ErrorKind::ConnectionFailed\n                    || t.kind() == ureq::ErrorKind::Dns\n                    || t.kind() == ureq::ErrorKind::Io =>\n            {",
         "            Err(ref e @ ureq::Error::Transport(ref t))\n                if matches!(\n                    t.kind(),\n                    ureq::ErrorKind::Io | ureq::ErrorKind::Dns | ureq::ErrorKind::ConnectionFailed\n                ) =>\n            {")),
    ref("ref-token-ifs",
        (F, "                let refresh_token = match parsed.get(\"refresh_token\") {\n                    None => Some(refresh_token),\n                    Some(Value::String(x)) => Some(x.to_owned()),\n                    Some(_) => None,\n                };\n",
         "                let refresh_token = if let Some(x) = parsed.get(\"refresh_token\") {\n                    x.as_str().map(|x| x.to_owned())\n                } else {\n                    Some(refresh_token)\n                };\n")),
    ref("ref-early-returns",
        (F, "                let now = Instant::now();\n                let mut ct_lk = pstate.ct_lock();\n                if ct_lk.is_act_id_valid(act_id) {\n                    let expiry", "                let now = Instant::now();\n                let mut ct_lk = pstate.ct_lock();\n                if !ct_lk.is_act_id_valid(act_id) {\n                    return RefreshKind::AccountOrTokenStateChanged;\n                }\n                {\n                    let expiry"),
        (F, "                    drop(ct_lk);\n                    RefreshKind::Refreshed\n                } else {\n                    RefreshKind::AccountOrTokenStateChanged\n                }", "                    drop(ct_lk);\n                    RefreshKind::Refreshed\n                }")),
    ref("ref-wakeup-loop",
        (F, "        ct_lk\n            .act_ids()\n            .filter_map(|act_id| self.refresh_at(pstate, &ct_lk, act_id))\n            .min()\n            .map(\n                |act_min| match Instant::now().checked_add(Duration::from_secs(MAX_WAIT_SECS)) {\n                    Some(x) => cmp::min(act_min, x),\n                    None => act_min,\n                },\n            )",
         "        let mut first: Option<Instant> = None;\n        for act_id in ct_lk.act_ids() {\n            if let Some(t) = self.refresh_at(pstate, &ct_lk, act_id) {\n                first = Some(match first {\n                    Some(x) => cmp::min(x, t),\n                    None => t,\n                });\n            }\n        }\n        let first = first?;\n        match Instant::now().checked_add(Duration::from_secs(MAX_WAIT_SECS)) {\n            Some(x) => Some(cmp::min(first, x)),\n            None => Some(first),\n        }")),
    ref("ref-due-loop",
        (F, "            let to_refresh = ct_lk\n                .act_ids()\n                .filter(\n                    |act_id| match refresher.refresh_at(&pstate, &ct_lk, *act_id) {\n                        Some(t) => t <= now,\n                        None => false,\n                    },\n                )\n                .collect::<HashSet<_>>();\n            drop(ct_lk);\n",
         "            let mut to_refresh = HashSet::new();\n            for act_id in ct_lk.act_ids() {\n                if let Some(t) = refresher.refresh_at(&pstate, &ct_lk, act_id) {\n                    if t <= now {\n                        to_refresh.insert(act_id);\n                    }\n                }\n            }\n            drop(ct_lk);\n")),
    ref("ref-wait-helper",
        (F, "            let mut refresh_lk = refresher.pred.lock().unwrap();\n            while !*refresh_lk {\n                match next_wakeup {\n                    Some(t) => match t.checked_duration_since(Instant::now()) {\n                        Some(d) => {\n                            #[cfg(debug_assertions)]\n                            debug!(\"Refresher: next wakeup {}\", d.as_secs().to_string());\n                            refresh_lk = refresher.condvar.wait_timeout(refresh_lk, d).unwrap().0\n                        }\n                        None => break,\n                    },\n                    None => {\n                        #[cfg(debug_assertions)]\n                        debug!(\"Refresher: next wakeup <indefinite>\");\n                        refresh_lk = refresher.condvar.wait(refresh_lk).unwrap();\n                    }\n                }\n            }\n\n            *refresh_lk = false;\n            drop(refresh_lk);\n",
         "            refresher.wait_until(next_wakeup);\n"),
        (F, "    /// Start the refresher thread.", "    fn wait_until(&self, next_wakeup: Option<Instant>) {\n        let mut refresh_lk = self.pred.lock().unwrap();\n        while !*refresh_lk {\n            if let Some(t) = next_wakeup {\n                let Some(d) = t.checked_duration_since(Instant::now()) else {\n                    break;\n                };\n                #[cfg(debug_assertions)]\n                debug!(\"Refresher: next wakeup {}\", d.as_secs().to_string());\n                let (lk, _) = self.condvar.wait_timeout(refresh_lk, d).unwrap();\n                refresh_lk = lk;\n            } else {\n                #[cfg(debug_assertions)]\n                debug!(\"Refresher: next wakeup <indefinite>\");\n                refresh_lk = self.condvar.wait(refresh_lk).unwrap();\n            }\n        }\n        *refresh_lk = false;\n    }\n\n    /// Start the refresher thread.")),
    ref("ref-sched-guards",
        (F, "            if ct_lk.is_act_id_valid(act_id) {\n                let mut new_ts = ct_lk.tokenstate(act_id).clone();\n                if let TokenState::Active {\n                    ref mut ongoing_refresh,\n                    ..\n                } = new_ts\n                {\n                    if !*ongoing_refresh {\n                        *ongoing_refresh = true;",
         "            if !ct_lk.is_act_id_valid(act_id) {\n                return;\n            }\n            {\n                let mut new_ts = ct_lk.tokenstate(act_id).clone();\n                if let TokenState::Active {\n                    ref mut ongoing_refresh,\n                    ..\n                } = new_ts\n                {\n                    if *ongoing_refresh {\n                        return;\n                    }\n                    {\n                        *ongoing_refresh = true;")),
    # ---------------------------------------------------------------- notifier, eventer
    ref("not-due-helper",
        (N, "                    if let Some(t) = last_notification {\n                        if let Some(t) = t.checked_add(notify_interval) {\n                            if t > now {\n                                continue;\n                            }\n                        }\n                    }\n",
         "                    let too_early = last_notification\n                        .and_then(|t| t.checked_add(notify_interval))\n                        .map_or(false, |t| t > now);\n                    if too_early {\n                        continue;\n                    }\n")),
    ref("not-run-fn",
        (N, "                thread::spawn(move || match env::var(\"SHELL\") {\n                    Ok(s) => {\n                        match Command::new(s)\n                            .env(\"PIZAUTH_ACCOUNT\", act_name.as_str())\n                            .env(\"PIZAUTH_URL\", url.as_str())\n                            .args([\"-c\", &cmd])\n                            .output()\n                        {",
         "                thread::spawn(move || match env::var(\"SHELL\") {\n                    Ok(s) => {\n                        let mut proc = Command::new(s);\n                        proc.env(\"PIZAUTH_URL\", url.as_str());\n                        proc.env(\"PIZAUTH_ACCOUNT\", act_name.as_str());\n                        proc.arg(\"-c\").arg(&cmd);\n                        match proc.output() {")),
    ref("not-for-index",
        (N, "            for (act_name, cmd, url) in auth_cmds.into_iter() {", "            for (act_name, cmd, url) in auth_cmds {")),
    ref("ev-pop-helper",
        (V, "                let (act_name, event) =\n                    if let Some((act_name, event)) = self.event_queue.lock().unwrap().pop_front() {\n                        (act_name, event)\n                    } else {\n                        break;\n                    };\n",
         "                let Some((act_name, event)) = self.next_event() else {\n                    break;\n                };\n"),
        (V, "    pub fn token_event(&self,", "    fn next_event(&self) -> Option<(String, TokenEvent)> {\n        let mut queue = self.event_queue.lock().unwrap();\n        queue.pop_front()\n    }\n\n    pub fn token_event(&self,")),
    ref("ev-run-fn",
        (V, "                match env::var(\"SHELL\") {\n                    Ok(s) => {\n                        match Command::new(s)\n                            .env(\"PIZAUTH_ACCOUNT\", act_name.as_str())\n                            .env(\"PIZAUTH_EVENT\", event.to_string())\n                            .args([\"-c\", &token_event_cmd])\n                            .spawn()\n                        {\n                            Ok(mut child) => match child.wait_timeout(NEW_ACCESS_TOKEN_CMD_TIMEOUT)\n                            {\n                                Ok(Some(status)) => {\n                                    if !status.success() {\n                                        error!(\n                                            \"'{token_event_cmd:}' returned {}\",\n                                            status\n                                                .code()\n                                                .map(|x| x.to_string())\n                                                .unwrap_or_else(|| \"<Unknown exit code\".to_string())\n                                        );\n                                    }\n                                }\n                                Ok(None) => {\n                                    child.kill().ok();\n                                    child.wait().ok();\n                                    error!(\"'{token_event_cmd:}' exceeded timeout\");\n                                }\n                                Err(e) => error!(\"Waiting on '{token_event_cmd:}' failed: {e:}\"),\n                            },\n                            Err(e) => error!(\"Couldn't execute '{token_event_cmd:}': {e:}\"),\n                        }\n                    }\n                    Err(e) => error!(\"{e:}\"),\n                }\n",
         "                if let Err(e) = run(&act_name, &event, &token_event_cmd) {\n                    error!(\"{e}\");\n                }\n"),
        (V, "impl Eventer {\n    pub fn new()", "fn run(act_name: &str, event: &TokenEvent, cmd: &str) -> Result<(), String> {\n    let shell = env::var(\"SHELL\").map_err(|e| e.to_string())?;\n    let mut child = Command::new(shell)\n        .args([\"-c\", cmd])\n        .env(\"PIZAUTH_ACCOUNT\", act_name)\n        .env(\"PIZAUTH_EVENT\", event.to_string())\n        .spawn()\n        .map_err(|e| format!(\"Couldn't execute '{cmd}': {e}\"))?;\n    let status = child\n        .wait_timeout(NEW_ACCESS_TOKEN_CMD_TIMEOUT)\n        .map_err(|e| format!(\"Waiting on '{cmd}' failed: {e}\"))?;\n    match status {\n        Some(s) if s.success() => Ok(()),\n        Some(s) => Err(format!(\"'{cmd}' returned {:?}\", s.code())),\n        None => {\n            child.kill().ok();\n            child.wait().ok();\n            Err(format!(\"'{cmd}' exceeded timeout\"))\n        }\n    }\n}\n\nimpl Eventer {\n    pub fn new()")),
    ref("ev-order",
        (V, "    pub fn token_event(&self, act_name: String, kind: TokenEvent) {\n        self.event_queue.lock().unwrap().push_back((act_name, kind));\n", "    pub fn token_event(&self, act_name: String, kind: TokenEvent) {\n        {\n            let mut queue = self.event_queue.lock().unwrap();\n            queue.push_back((act_name, kind));\n        }\n")),
    # ---------------------------------------------------------------- mod
    ref("mod-cmd-fns",
        (M, "            let act_name = std::str::from_utf8(rest)?;\n            let mut ct_lk = pstate.ct_lock();\n            match ct_lk.validate_act_name(act_name) {\n                Some(act_id) => {\n                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    drop(ct_lk);\n\n                    pstate\n                        .eventer\n                        .token_event(act_name.to_owned(), TokenEvent::Revoked);\n                    stream.write_all(b\"ok:\")?;\n                    return Ok(());\n                }\n                None => {\n                    drop(ct_lk);\n                    stream.write_all(format!(\"error:No account '{act_name:}'\").as_bytes())?;\n                    return Ok(());\n                }\n            };\n",
         "            let act_name = std::str::from_utf8(rest)?;\n            if revoke(&pstate, act_name) {\n                stream.write_all(b\"ok:\")?;\n            } else {\n                stream.write_all(format!(\"error:No account '{act_name:}'\").as_bytes())?;\n            }\n            return Ok(());\n"),
        (M, "/// Print a [SystemTime] as", "fn revoke(pstate: &AuthenticatorState, act_name: &str) -> bool {\n    let mut ct_lk = pstate.ct_lock();\n    let Some(act_id) = ct_lk.validate_act_name(act_name) else {\n        return false;\n    };\n    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n    drop(ct_lk);\n    pstate.eventer.token_event(act_name.to_owned(), TokenEvent::Revoked);\n    true\n}\n\n/// Print a [SystemTime] as")),
    ref("mod-status-fn",
        (M, "            for act_id in ct_lk.act_ids() {\n                let act = ct_lk.account(act_id);\n                let st = match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty => \"No access token\".into(),", "            for act_id in ct_lk.act_ids() {\n                let st = match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty => \"No access token\".to_owned(),"),
        (M, "                acts.push(format!(\"{}: {st}\", act.name));", "                let name = &ct_lk.account(act_id).name;\n                acts.push(format!(\"{name}: {st}\"));")),
    ref("mod-status-helper",
        (M, "                let st = match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty => \"No access token\".into(),\n                    TokenState::Pending {\n                        last_notification: Some(i),\n                        ..\n                    } => format!(\n                        \"Access token pending authentication (last notification {})\",\n                        instant_fmt(*i)\n                    ),\n                    TokenState::Pending {\n                        last_notification: None,\n                        ..\n                    } => \"Access token pending authentication\".into(),\n                    TokenState::Active {\n                        access_token_obtained,\n                        access_token_expiry,\n                        last_refresh_attempt,\n                        ..\n                    } => {\n                        if *access_token_expiry > Instant::now() {\n                            format!(\n                                \"Active access token (obtained {}; expires {})\",\n                                instant_fmt(*access_token_obtained),\n                                instant_fmt(*access_token_expiry)\n                            )\n                        } else if let Some(i) = last_refresh_attempt {\n                            format!(\n                                \"Access token expired (last refresh attempt {})\",\n                                instant_fmt(*i)\n                            )\n                        } else {\n                            \"Access token expired (refresh not yet attempted)\".into()\n                        }\n                    }\n                };\n                acts.push(format!(\"{}: {st}\", act.name));",
         "                acts.push(format!(\"{}: {}\", act.name, describe(ct_lk.tokenstate(act_id))));"),
        (M, "/// Print a [SystemTime] as", "fn describe(ts: &TokenState) -> String {\n    match ts {\n        TokenState::Empty => \"No access token\".into(),\n        TokenState::Pending {\n            last_notification, ..\n        } => match last_notification {\n            Some(i) => format!(\n                \"Access token pending authentication (last notification {})\",\n                instant_fmt(*i)\n            ),\n            None => \"Access token pending authentication\".into(),\n        },\n        TokenState::Active {\n            access_token_obtained,\n            access_token_expiry,\n            last_refresh_attempt,\n            ..\n        } => {\n            if *access_token_expiry > Instant::now() {\n                return format!(\n                    \"Active access token (obtained {}; expires {})\",\n                    instant_fmt(*access_token_obtained),\n                    instant_fmt(*access_token_expiry)\n                );\n            }\n            match last_refresh_attempt {\n                Some(i) => format!(\n                    \"Access token expired (last refresh attempt {})\",\n                    instant_fmt(*i)\n                ),\n                None => \"Access token expired (refresh not yet attempted)\".into(),\n            }\n        }\n    }\n}\n\n/// Print a [SystemTime] as")),
    ref("mod-status-map",
        (M, "            let mut acts = Vec::new();\n            for act_id in ct_lk.act_ids() {\n                let act = ct_lk.account(act_id);\n", "            let mut acts = ct_lk.act_ids().map(|act_id| {\n                let act = ct_lk.account(act_id);\n"),
        (M, "                acts.push(format!(\"{}: {st}\", act.name));\n            }\n", "                format!(\"{}: {st}\", act.name)\n            }).collect::<Vec<_>>();\n")),
    ref("mod-pending-helper",
        (M, "                    TokenState::Empty | TokenState::Pending { .. } => {\n                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;\n                        if *with_url == \"withurl\" {\n                            stream.write_all(format!(\"pending:{url:}\").as_bytes())?;\n                        } else {\n                            stream.write_all(b\"pending:\")?;\n                        }\n                    }",
         "                    TokenState::Empty | TokenState::Pending { .. } => {\n                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;\n                        stream.write_all(pending(with_url, url.as_str()).as_bytes())?;\n                    }"),
        (M, "                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;\n                        if *with_url == \"withurl\" {\n                            stream.write_all(format!(\"pending:{url:}\").as_bytes())?;\n                        } else {\n                            stream.write_all(b\"pending:\")?;\n                        }\n                    }\n                    TokenState::Pending { ref url, .. } => {\n                        let response = if *with_url == \"withurl\" {\n                            format!(\"pending:{url:}\")\n                        } else {\n                            \"pending:\".to_owned()\n                        };\n",
         "                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;\n                        stream.write_all(pending(with_url, url.as_str()).as_bytes())?;\n                    }\n                    TokenState::Pending { ref url, .. } => {\n                        let response = pending(with_url, url.as_str());\n"),
        (M, "/// Print a [SystemTime] as", "fn pending(with_url: &str, url: &str) -> String {\n    match with_url {\n        \"withurl\" => format!(\"pending:{url}\"),\n        _ => String::from(\"pending:\"),\n    }\n}\n\n/// Print a [SystemTime] as")),
    ref("mod-reply-helper",
        (M, "            match pstate.restore(rest.to_vec()) {\n                Ok(_) => stream.write_all(b\"ok:\")?,\n                Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes())?,\n            }\n            return Ok(());", "            let r = pstate.restore(rest.to_vec());\n            return ack(stream, r);"),
        (M, "            match Config::from_path(&pstate.conf_path) {\n                Ok(new_conf) => {\n                    pstate.update_conf(new_conf);\n                    stream.write_all(b\"ok:\")?\n                }\n                Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes())?,\n            }\n            return Ok(());", "            let r = Config::from_path(&pstate.conf_path).map(|c| pstate.update_conf(c));\n            return ack(stream, r);"),
        (M, "/// Print a [SystemTime] as", "fn ack<E: std::fmt::Display>(mut stream: UnixStream, r: Result<(), E>) -> Result<(), Box<dyn Error>> {\n    let reply = match r {\n        Ok(()) => String::from(\"ok:\"),\n        Err(e) => format!(\"error:{e}\"),\n    };\n    stream.write_all(reply.as_bytes())?;\n    Ok(())\n}\n\n/// Print a [SystemTime] as")),
    ref("mod-split-once",
        (M, "            let rest = std::str::from_utf8(rest)?;\n            if let [with_url, act_name] = &rest.splitn(2, ' ').collect::<Vec<_>>()[..] {\n                let ct_lk = pstate.ct_lock();\n                let act_id = match ct_lk.validate_act_name(act_name) {\n                    Some(x) => x,\n                    None => {\n                        drop(ct_lk);\n                        stream.write_all(format!(\"error:No account '{act_name:}'\").as_bytes())?;\n                        return Ok(());\n                    }\n                };\n                match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty | TokenState::Pending { .. } => {\n                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;\n                        if *with_url == \"withurl\" {",
         "            let rest = std::str::from_utf8(rest)?;\n            if let Some((with_url, act_name)) = rest.split_once(' ') {\n                let ct_lk = pstate.ct_lock();\n                let act_id = match ct_lk.validate_act_name(act_name) {\n                    Some(x) => x,\n                    None => {\n                        drop(ct_lk);\n                        stream.write_all(format!(\"error:No account '{act_name:}'\").as_bytes())?;\n                        return Ok(());\n                    }\n                };\n                match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty | TokenState::Pending { .. } => {\n                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;\n                        if with_url == \"withurl\" {")),
    ref("mod-parse-position",
        (M, "        let len = buf\n            .iter()\n            .map(|b| *b as char)\n            .take_while(|c| *c != ':')\n            .count();\n        if len == buf.len() {\n            return Err(format!(\n                \"Syntactically invalid request '{}'\",\n                std::str::from_utf8(&buf).unwrap_or(\"<can't represent as UTF-8\")\n            )\n            .into());\n        }\n        (std::str::from_utf8(&buf[..len])?, &buf[len + 1..])\n",
         "        match buf.iter().position(|b| *b == b':') {\n            Some(len) => (std::str::from_utf8(&buf[..len])?, &buf[len + 1..]),\n            None => {\n                return Err(format!(\n                    \"Syntactically invalid request '{}'\",\n                    std::str::from_utf8(&buf).unwrap_or(\"<can't represent as UTF-8\")\n                )\n                .into())\n            }\n        }\n")),
    ref("mod-showtoken-match",
        (M, "                        let response = if access_token_expiry > &Instant::now() {\n                            format!(\"access_token:{access_token:}\")\n                        } else if *ongoing_refresh {\n                            \"error:Access token has expired. Refreshing is in progress but has not yet succeeded\"\n                                .into()\n                        } else {\n                            pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);\n                            \"error:Access token has expired. Refreshing initiated\".into()\n                        };\n                        drop(ct_lk);\n                        stream.write_all(response.as_bytes())?;",
         "                        let expired = *access_token_expiry <= Instant::now();\n                        if !expired {\n                            let response = format!(\"access_token:{access_token:}\");\n                            drop(ct_lk);\n                            stream.write_all(response.as_bytes())?;\n                        } else if *ongoing_refresh {\n                            drop(ct_lk);\n                            stream.write_all(b\"error:Access token has expired. Refreshing is in progress but has not yet succeeded\")?;\n                        } else {\n                            drop(ct_lk);\n                            pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);\n                            stream.write_all(b\"error:Access token has expired. Refreshing initiated\")?;\n                        }")),
    ref("mod-server-order",
        (M, "    let eventer = Arc::new(Eventer::new()?);\n    let notifier = Arc::new(Notifier::new()?);\n    let refresher = Refresher::new();\n", "    let refresher = Refresher::new();\n    let notifier = Arc::new(Notifier::new()?);\n    let eventer = Arc::new(Eventer::new()?);\n"),
        (M, "    eventer.eventer(Arc::clone(&pstate))?;\n    refresher.refresher(Arc::clone(&pstate))?;\n    notifier.notifier(Arc::clone(&pstate))?;\n", "    notifier.notifier(pstate.clone())?;\n    refresher.refresher(pstate.clone())?;\n    eventer.eventer(pstate.clone())?;\n")),
    ref("mod-info-vec",
        (M, "            m.insert(\n                \"http_port\",\n                match pstate.http_port {\n                    Some(x) => x.to_string(),\n                    None => \"none\".to_string(),\n                },\n            );\n            m.insert(\n                \"https_port\",\n                match pstate.https_port {\n                    Some(x) => x.to_string(),\n                    None => \"none\".to_string(),\n                },\n            );\n",
         "            for (k, p) in [\n                (\"http_port\", pstate.http_port),\n                (\"https_port\", pstate.https_port),\n            ] {\n                m.insert(k, p.map_or_else(|| \"none\".to_string(), |x| x.to_string()));\n            }\n")),
    ref("mod-info-helper",
        (M, "                match pstate.http_port {\n                    Some(x) => x.to_string(),\n                    None => \"none\".to_string(),\n                },\n", "                port_name(pstate.http_port),\n"),
        (M, "                match pstate.https_port {\n                    Some(x) => x.to_string(),\n                    None => \"none\".to_string(),\n                },\n", "                port_name(pstate.https_port),\n"),
        (M, "/// Print a [SystemTime] as", "fn port_name(p: Option<u16>) -> String {\n    p.map(|x| x.to_string()).unwrap_or_else(|| \"none\".into())\n}\n\n/// Print a [SystemTime] as")),
    # ---------------------------------------------------------------- request_token
    ref("req-random-helper",
        (Q, "    let mut state = [0u8; STATE_LEN];\n    rng().fill_bytes(&mut state);\n    let state = URL_SAFE_NO_PAD.encode(state);\n\n    let mut code_verifier = [0u8; CODE_VERIFIER_LEN];\n    rng().fill_bytes(&mut code_verifier);\n    let code_verifier = URL_SAFE_NO_PAD.encode(code_verifier);\n",
         "    let state = random_string::<STATE_LEN>();\n    let code_verifier = random_string::<CODE_VERIFIER_LEN>();\n"),
        (Q, "/// Request a new token for", "/// A random string, made of `N` random bytes.\nfn random_string<const N: usize>() -> String {\n    let mut bytes = [0u8; N];\n    rng().fill_bytes(&mut bytes);\n    URL_SAFE_NO_PAD.encode(bytes)\n}\n\n/// Request a new token for")),
    ref("req-digest",
        (Q, "    let mut hasher = Sha256::new();\n    hasher.update(&code_verifier);\n    let code_challenge = URL_SAFE_NO_PAD.encode(hasher.finalize());\n", "    let code_challenge = URL_SAFE_NO_PAD.encode(Sha256::digest(code_verifier.as_bytes()));\n")),
    ref("req-params-extend",
        (Q, "    for (k, v) in &act.auth_uri_fields {\n        params.push((k.as_str(), v.as_str()));\n    }\n    let url = Url::parse_with_params(ct_lk.account(act_id).auth_uri.as_str(), &params)?;\n",
         "    params.extend(act.auth_uri_fields.iter().map(|(k, v)| (k.as_str(), v.as_str())));\n    let url = Url::parse_with_params(&act.auth_uri, &params)?;\n")),
    ref("req-url-helper",
        (Q, "    let scopes_join = act.scopes.join(\" \");\n    let redirect_uri = act\n        .redirect_uri(pstate.http_port, pstate.https_port)?\n        .to_string();\n    let mut params = vec![\n        (\"access_type\", \"offline\"),\n        (\"code_challenge\", &code_challenge),\n        (\"code_challenge_method\", \"S256\"),\n        (\"client_id\", act.client_id.as_str()),\n        (\"redirect_uri\", redirect_uri.as_str()),\n        (\"response_type\", \"code\"),\n        (\"state\", &state),\n    ];\n    if !act.scopes.is_empty() {\n        params.push((\"scope\", scopes_join.as_str()));\n    }\n    for (k, v) in &act.auth_uri_fields {\n        params.push((k.as_str(), v.as_str()));\n    }\n    let url = Url::parse_with_params(ct_lk.account(act_id).auth_uri.as_str(), &params)?;\n",
         "    let redirect_uri = act.redirect_uri(pstate.http_port, pstate.https_port)?;\n    let url = auth_url(act, redirect_uri.as_str(), &code_challenge, &state)?;\n"),
        (Q, "/// Request a new token for", "fn auth_url(\n    act: &crate::config::Account,\n    redirect_uri: &str,\n    code_challenge: &str,\n    state: &str,\n) -> Result<Url, Box<dyn Error>> {\n    let scopes_join = act.scopes.join(\" \");\n    let mut params = vec![\n        (\"access_type\", \"offline\"),\n        (\"code_challenge\", code_challenge),\n        (\"code_challenge_method\", \"S256\"),\n        (\"client_id\", act.client_id.as_str()),\n        (\"redirect_uri\", redirect_uri),\n        (\"response_type\", \"code\"),\n        (\"state\", state),\n    ];\n    if !act.scopes.is_empty() {\n        params.push((\"scope\", scopes_join.as_str()));\n    }\n    for (k, v) in &act.auth_uri_fields {\n        params.push((k.as_str(), v.as_str()));\n    }\n    Ok(Url::parse_with_params(act.auth_uri.as_str(), &params)?)\n}\n\n/// Request a new token for")),
    # ---------------------------------------------------------------- state
    ref("st-update-collect",
        (S, "        let mut details = Vec::with_capacity(config.accounts.len());\n\n        for act_name in config.accounts.keys() {\n            if let Some(old_act) = self.config.accounts.get(act_name) {\n                let new_act = &config.accounts[act_name];\n                if new_act.secure_eq(old_act) {", "        let mut details = Vec::with_capacity(config.accounts.len());\n\n        for (act_name, new_act) in &config.accounts {\n            if let Some(old_act) = self.config.accounts.get(act_name) {\n                if new_act.secure_eq(old_act) {")),
    ref("st-update-continue",
        (S, "                if new_act.secure_eq(old_act) {\n                    // We know that `self.details` must contain `act_name` so the unwrap is safe.\n                    details.push(\n                        self.details\n                            .iter()\n                            .find(|x| x.0 == act_name.as_str())\n                            .unwrap()\n                            .clone(),\n                    );\n                } else {",
         "                if new_act.secure_eq(old_act) {\n                    for old in &self.details {\n                        if old.0 == *act_name {\n                            details.push(old.clone());\n                            break;\n                        }\n                    }\n                } else {")),
    ref("st-restore-helper",
        (S, "                    match (old_ts, &new_ts) {\n                        (\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                        ) => (),\n                        (\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                            &TokenState::Active { .. },\n                        ) => {\n                            restore.insert(act_name.to_owned(), new_ts);\n                        }\n                        (&TokenState::Active { .. }, _) => (),\n                    }",
         "                    if !matches!(old_ts, TokenState::Active { .. })\n                        && matches!(new_ts, TokenState::Active { .. })\n                    {\n                        restore.insert(act_name.to_owned(), new_ts);\n                    }")),
    ref("st-restore-values",
        (S, "        for (act_name, ts) in restore.drain() {\n            let ts_idx = self\n                .details\n                .iter()\n                .position(|(n, _, _)| n == &act_name)\n                .unwrap();\n            self.details[ts_idx].1 = AccountId::new(self);\n            self.details[ts_idx].2 = ts;\n        }",
         "        for (act_name, ts) in restore {\n            let act_id = AccountId::new(self);\n            let d = self\n                .details\n                .iter_mut()\n                .find(|(n, _, _)| *n == act_name)\n                .unwrap();\n            d.1 = act_id;\n            d.2 = ts;\n        }")),
    ref("st-lock-scope",
        (S, "        let lk = self.locked_state.lock().unwrap();\n        let d = lk.dump()?;\n        drop(lk);\n", "        let d = self.locked_state.lock().unwrap().dump()?;\n")),
    ref("st-restore-split",
        (S, "        let nonce = &d[..NONCE_LEN];\n        let encrypted = &d[NONCE_LEN..];\n        let d = cipher\n            .decrypt(Nonce::from_slice(nonce), encrypted.as_ref())", "        let (nonce, encrypted) = d.split_at(NONCE_LEN);\n        let d = cipher\n            .decrypt(Nonce::from_slice(nonce), encrypted)")),
    ref("st-dump-map",
        (S, "        let mut acts = HashMap::with_capacity(self.details.len());\n        for (act_name, _, ts) in &self.details {\n            acts.insert(\n                act_name.to_owned(),\n                (self.config.accounts[act_name.as_str()].dump(), ts.dump()),\n            );\n        }\n", "        let acts = self\n            .details\n            .iter()\n            .map(|(n, _, ts)| (n.clone(), (self.config.accounts[n].dump(), ts.dump())))\n            .collect::<HashMap<_, _>>();\n")),
    ref("st-update-events",
        (S, "        let invalidated = {\n            let mut lk = self.locked_state.lock().unwrap();\n            lk.update_conf(new_conf)\n        };\n        for act_name in invalidated {", "        let mut lk = self.locked_state.lock().unwrap();\n        let invalidated = lk.update_conf(new_conf);\n        drop(lk);\n        for act_name in invalidated {")),
]

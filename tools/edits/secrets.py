M, H, R, S, N, V, T, C = ("src/server/" + x for x in ("mod.rs", "http_server.rs", "refresher.rs", "state.rs", "notifier.rs", "eventer.rs", "request_token.rs", "x"))
C = "src/config.rs"
I = ["C18"]
REV = """(
                        act_id"""
BADJSON = """            fail(pstate, act_id, &format!("Invalid JSON: {e}"))?;"""
INVALID = """            fail(pstate, act_id, "invalid response received")?;"""
STORE = "            drop(ct_lk);\n            pstate.refresher.notify_changes();\n            pstate.eventer.token_event(act_name, TokenEvent::New);"
EDITS = [
 dict(name="s-log-refresh", kind="mut", ids=I, edits=[(R, "        drop(ct_lk);\n        let body = match ureq", "        drop(ct_lk);\n        log::debug!(\"Refreshing with {refresh_token}\");\n        let body = match ureq")]),
 dict(name="s-log-pairs", kind="mut", ids=I, edits=[(R, "        drop(ct_lk);\n        let body = match ureq", "        drop(ct_lk);\n        log::debug!(\"Request: {pairs:?}\");\n        let body = match ureq")]),
 dict(name="s-log-body", kind="mut", ids=I, edits=[(H, "    let parsed = match serde_json::from_str::<Value>(&body) {", "    log::trace!(\"Reply: {body}\");\n    let parsed = match serde_json::from_str::<Value>(&body) {")]),
 dict(name="s-body-in-error", kind="mut", ids=I, edits=[(H, BADJSON, """            fail(pstate, act_id, &format!("Invalid JSON: {e}: {body}"))?;""")]),
 dict(name="s-parsed-in-error", kind="mut", ids=I, edits=[(H, INVALID, """            fail(pstate, act_id, &format!("invalid response received: {parsed}"))?;""")]),
 dict(name="s-type-in-error", kind="mut", ids=I, edits=[(H, INVALID, """            fail(pstate, act_id, &format!("invalid response received: {:?}", parsed.get("access_token")))?;""")]),
 dict(name="s-refresh-parsed", kind="mut", ids=I, edits=[(R, """                    return RefreshKind::PermanentError(format!("{e}"));""", """                    return RefreshKind::PermanentError(format!("{e}: {access_token}"));""")]),
 dict(name="s-refresh-body", kind="mut", ids=I, edits=[(R, """                    let msg = format!("Refreshing {} failed: {e}", ct_lk.account(act_id).name);""", """                    let msg = format!("Refreshing {} failed: {e} in '{}'", ct_lk.account(act_id).name, body.trim());""")]),
 dict(name="s-log-query", kind="mut", ids=I, edits=[(H, "    // If host is Some, use addressed port", "    log::debug!(\"GET {path}\");\n    // If host is Some, use addressed port")]),
 dict(name="s-ref-req-in-error", kind="ref", edits=[(H, ".map_err(|e| format!(\"Invalid request URI: {e:}\").into()),", ".map_err(|e| format!(\"Invalid request URI {path}: {e:}\").into()),")]),
 dict(name="s-log-uri", kind="mut", ids=I, edits=[(H, "    // Fish out the code query.", "    log::debug!(\"Redirect: {}\", uri.as_str());\n    // Fish out the code query.")]),
 dict(name="s-verifier-url", kind="mut", ids=I, edits=[(T, '("code_challenge", &code_challenge),\n        ("code_challenge_method", "S256"),', '("code_challenge", &code_verifier),\n        ("code_challenge_method", "plain"),')]),
 dict(name="s-secret-url", kind="mut", ids=I, edits=[(T, "    for (k, v) in &act.auth_uri_fields {", "    if let Some(x) = &act.client_secret {\n        params.push((\"client_secret\", x.as_str()));\n    }\n    for (k, v) in &act.auth_uri_fields {")]),
 dict(name="s-debug-account", kind="mut", ids=I, edits=[(H, "    // Fish out the code query.", "    log::debug!(\"{:?}\", ct_lk.account(act_id));\n    // Fish out the code query.")]),
 dict(name="s-debug-state", kind="mut", ids=I, edits=[(S, "    pub fn dump(&self) -> TokenStateDump {", "    pub fn dump(&self) -> TokenStateDump {\n        log::trace!(\"dumping {self:?}\");")]),
 dict(name="s-debug-conf", kind="mut", ids=I, edits=[(M, "                    pstate.update_conf(new_conf);", "                    log::info!(\"New configuration: {new_conf:?}\");\n                    pstate.update_conf(new_conf);")]),
 dict(name="s-eprint", kind="mut", ids=I, edits=[(H, STORE, "            eprintln!(\"{act_name}: {access_token}\");\n" + STORE)]),
 dict(name="s-file", kind="mut", ids=I, edits=[(S, "    pub fn restore(&self, d: Vec<u8>)", "    pub fn save(&self, p: &std::path::Path) {\n        if let Ok(d) = self.dump() {\n            let _ = std::fs::write(p, d);\n        }\n    }\n\n    pub fn restore(&self, d: Vec<u8>)"), (H, STORE, "            drop(ct_lk);\n            pstate.save(std::path::Path::new(\"/tmp/pizauth.dump\"));\n            pstate.refresher.notify_changes();\n            pstate.eventer.token_event(act_name, TokenEvent::New);")]),
 dict(name="s-file-token", kind="mut", ids=I, edits=[(H, STORE, "            let _ = std::fs::write(\"/tmp/tok\", access_token);\n" + STORE)]),
 dict(name="s-web-token", kind="mut", ids=I, edits=[(H, """    http_200(
        stream,
        "pizauth processing authentication: you can safely close this page.",
    );
""", """    http_200(
        stream,
        &format!("pizauth processing authentication with {code}: you can safely close this page."),
    );
""")]),
 dict(name="s-unknown-cmd", kind="mut", ids=I, edits=[(M, "x => stream.write_all(format!(\"error:Unknown command '{x}'\").as_bytes())?,", "x => stream.write_all(format!(\"error:Unknown command '{x}' {:?}\", pstate.ct_lock().config()).as_bytes())?,")]),
 dict(name="s-status-token", kind="mut", ids=I, edits=[(M, """                    TokenState::Active {
                        access_token_obtained,""", """                    TokenState::Active {
                        access_token,
                        access_token_obtained,"""), (M, "(obtained {}; expires {})\"", "({}…, obtained {}; expires {})\""), (M, """                                instant_fmt(*access_token_obtained),
                                instant_fmt(*access_token_expiry)""", """                                &access_token[..4],
                                instant_fmt(*access_token_obtained),
                                instant_fmt(*access_token_expiry)""")]),
 dict(name="s-show-refresh", kind="mut", ids=I, edits=[(M, """                        access_token,
                        access_token_expiry,
                        ongoing_refresh,
                        ..""", """                        access_token,
                        access_token_expiry,
                        ongoing_refresh,
                        refresh_token,
                        .."""), (M, "format!(\"access_token:{access_token:}\")", "format!(\"access_token:{access_token:}{}\", refresh_token.as_deref().unwrap_or(\"\"))")]),
 dict(name="s-env-token", kind="mut", ids=I, edits=[(V, '.env("PIZAUTH_EVENT", event.to_string())', '.env("PIZAUTH_EVENT", event.to_string())\n                            .env("PIZAUTH_TOKEN", { let ct_lk = pstate.ct_lock(); let x = ct_lk.validate_act_name(&act_name).map(|x| match ct_lk.tokenstate(x) { crate::server::state::TokenState::Active { access_token, .. } => access_token.clone(), _ => String::new() }); x.unwrap_or_default() })')]),
 dict(name="s-notify-verifier", kind="mut", ids=I, edits=[(H, '&format!("couldn\'t connect to {token_uri:}")', '&format!("couldn\'t connect to {token_uri:} with {code_verifier}")')]),
 dict(name="s-notify-code", kind="mut", ids=I, edits=[(H, '&format!("couldn\'t connect to {token_uri:}")', '&format!("couldn\'t connect to {token_uri:} with code {code}")')]),
 dict(name="s-state-secret", kind="mut", ids=I, edits=[(T, "    let state = URL_SAFE_NO_PAD.encode(state);\n\n    let mut code_verifier = [0u8; CODE_VERIFIER_LEN];", "    let secret = URL_SAFE_NO_PAD.encode(state);\n    let state = secret.clone();\n\n    let mut code_verifier = [0u8; CODE_VERIFIER_LEN];"), (T, '    let code_verifier = URL_SAFE_NO_PAD.encode(code_verifier);\n', '    rng().fill_bytes(&mut code_verifier);\n    let code_verifier = URL_SAFE_NO_PAD.encode(code_verifier);\n    log::trace!("{code_verifier} {secret}");\n')]),
 dict(name="s-transient", kind="mut", ids=I, edits=[(R, "return RefreshKind::TransitoryError(act_id, e.to_string())\n            }\n            Err(e)", "return RefreshKind::TransitoryError(act_id, format!(\"{e} ({})\", pairs.iter().map(|x| x.1).collect::<Vec<_>>().join(\",\")))\n            }\n            Err(e)")]),
 dict(name="s-ref-log-name", kind="ref", edits=[(R, "        drop(ct_lk);\n        let body = match ureq", "        log::debug!(\"Refreshing {}\", ct_lk.account(act_id).name);\n        drop(ct_lk);\n        let body = match ureq")]),
 dict(name="s-ref-log-kind", kind="ref", edits=[(H, "    let parsed = match serde_json::from_str::<Value>(&body) {", "    log::trace!(\"Reply of {} bytes\", body.len());\n    let parsed = match serde_json::from_str::<Value>(&body) {")]),
 dict(name="s-ref-keys", kind="ref", edits=[(R, "        drop(ct_lk);\n        let body = match ureq", "        drop(ct_lk);\n        log::debug!(\"Request: {:?}\", pairs.iter().map(|x| x.0).collect::<Vec<_>>());\n        let body = match ureq")]),
 dict(name="s-ref-uri", kind="ref", edits=[(H, '&format!("couldn\'t connect to {token_uri:}")', '&format!("couldn\'t connect to {}", token_uri.as_str())')]),
 dict(name="s-ref-has", kind="ref", edits=[(H, STORE, "            log::debug!(\"{act_name}: refresh token {}\", if refresh_token.is_some() { \"given\" } else { \"missing\" });\n" + STORE)]),
 dict(name="s-ref-method", kind="ref", edits=[(H, "    let mut req_line = String::new();", "    log::trace!(\"HTTP request (TLS: {is_https})\");\n    let mut req_line = String::new();")]),
]

R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"; A="src/main.rs"; U="src/user_sender.rs"
def mut(n, ids, *ed): return dict(name="m3-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
EDITS=[
 mut("c01-name-ci","C01",(S,"                            .find(|x| x.0 == act_name.as_str())\n                            .unwrap()\n                            .clone(),","                            .find(|x| x.0.eq_ignore_ascii_case(act_name))\n                            .unwrap()\n                            .clone(),")),
 mut("c01-scope-set","C01",(C,"self.scopes == other.scopes","self.scopes.len() == other.scopes.len()\n            && self.scopes.iter().all(|x| other.scopes.contains(x))")),
 mut("c01-keep-pending","C01",(S,"                if new_act.secure_eq(old_act) {","                let pending = self\n                    .details\n                    .iter()\n                    .any(|x| &x.0 == act_name && matches!(x.2, TokenState::Pending { .. }));\n                if pending || new_act.secure_eq(old_act) {")),
 mut("c02-prefix","C02",(S,"                .position(|(n, _, _)| n == &act_name)","                .position(|(n, _, _)| n.starts_with(&act_name))")),
 mut("c02-recheck","C02",(S,"                        (&TokenState::Active { .. }, _) => (),","                        (TokenState::Active { ongoing_refresh, .. }, _) => {\n                            if *ongoing_refresh {\n                                restore.insert(act_name.to_owned(), new_ts);\n                            }\n                        }")),
 mut("c04-reset-count","C04",(S,"        self.config = config;\n        self.details = details;","        if details.is_empty() {\n            self.account_count = 0;\n        }\n        self.config = config;\n        self.details = details;")),
 mut("c04-reuse-on-empty","C04",(S,"                    details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));\n                }\n            } else {","                    let old = self.details.iter().find(|x| x.0 == act_name.as_str()).unwrap();\n                    let id = match old.2 {\n                        TokenState::Empty => old.1,\n                        _ => AccountId::new(self),\n                    };\n                    details.push((act_name.to_owned(), id, TokenState::Empty));\n                }\n            } else {")),
 mut("c05-dns","C05",(Q,"    let act = ct_lk.account(act_id);\n","    let act = ct_lk.account(act_id);\n    Url::parse(&act.auth_uri)?.socket_addrs(|| None).ok();\n")),
 mut("c05-shutdown-wr","C05",(M,"                        drop(ct_lk);\n                        stream.write_all(response.as_bytes())?;\n                    }\n                    TokenState::Active {","                        stream.flush()?;\n                        drop(ct_lk);\n                        stream.write_all(response.as_bytes())?;\n                    }\n                    TokenState::Active {")),
 mut("c07-state-ci","C07",(S,"TokenState::Pending { state: s, .. } if s == state","TokenState::Pending { state: s, .. } if s.eq_ignore_ascii_case(state)")),
 mut("c07-err-first","C07",(H,"    if expected_uri.scheme() != uri.scheme()\n","    let is_error = uri.query_pairs().any(|(k, _)| k == \"error\");\n    if !is_error && expected_uri.scheme() != uri.scheme()\n")),
 mut("c08-once","C08",(Q,"    let state = URL_SAFE_NO_PAD.encode(state);\n","    static STATE: std::sync::OnceLock<String> = std::sync::OnceLock::new();\n    let state = STATE.get_or_init(|| URL_SAFE_NO_PAD.encode(state)).clone();\n")),
 mut("c08-verifier-tail","C08",(Q,"    rng().fill_bytes(&mut code_verifier);","    rng().fill_bytes(&mut code_verifier[..16]);")),
 mut("c08-verifier-copy","C08",(Q,"    rng().fill_bytes(&mut code_verifier);","    rng().fill_bytes(&mut code_verifier);\n    code_verifier[..8].copy_from_slice(&[0; 8]);")),
 mut("c09-query-id","C09",(R,"            .post(token_uri.as_str())\n","            .post(token_uri.as_str())\n            .query(\"client_id\", client_id.as_str())\n")),
 mut("c09-auth-header","C09",(H,"            .post(token_uri.as_str())\n","            .post(token_uri.as_str())\n            .set(\"X-Verifier\", &code_verifier)\n")),
 mut("c09-proxy","C09",(R,"            .timeout(UREQ_TIMEOUT)\n            .build()","            .timeout(UREQ_TIMEOUT)\n            .try_proxy_from_env(true)\n            .build()")),
 mut("c10-error-empty","C10",(R,"if let Some(e) = v[\"error\"].as_str() {","if let Some(e) = v[\"error\"].as_str().filter(|x| !x.is_empty()) {")),
 mut("c10-expires-str","C10",(H,"        parsed[\"expires_in\"].as_u64(),\n","        parsed[\"expires_in\"]\n            .as_u64()\n            .or_else(|| parsed[\"expires_in\"].as_str().and_then(|x| x.parse().ok())),\n")),
 mut("c10-path","C10",(H,"        parsed[\"access_token\"].as_str(),\n","        parsed[\"access_token\"]\n            .as_str()\n            .or(parsed[\"data\"][\"access_token\"].as_str()),\n")),
 mut("c12-panic","C12",(R,"                    Ok(r) => format!(\"{code:}: {r:}\"),\n                    Err(_) => format!(\"{code:}\"),\n                };\n                let mut ct_lk","                    Ok(r) => format!(\"{code:}: {}\", &r[..r.len().min(200)]),\n                    Err(_) => format!(\"{code:}\"),\n                };\n                let mut ct_lk")),
 mut("c12-early-return","C12",(R,"        let refresh_token = match new_ts {\n","        if ct_lk.account(act_id).token_uri.is_empty() {\n            return RefreshKind::AccountOrTokenStateChanged;\n        }\n        let refresh_token = match new_ts {\n")),
 mut("c13-mod4","C13",(R,"                                        *consecutive_refresh_fails += 1;","                                        *consecutive_refresh_fails =\n                                            (*consecutive_refresh_fails + 1) % 4;")),
 mut("c13-signal","C13",(R,"                        if status.success() {\n                            Ok(())","                        if status.code().is_none_or(|x| x == 0) {\n                            Ok(())")),
 mut("c13-tls","C13",(R,"                    || t.kind() == ureq::ErrorKind::Io =>","                    || (t.kind() == ureq::ErrorKind::Io && t.message().is_none_or(|x| !x.contains(\"tls\"))) =>")),
 mut("c14-try","C14",(N,"        let mut notify_lk = self.pred.lock().unwrap();\n        *notify_lk = true;\n        self.condvar.notify_one();","        if let Ok(mut notify_lk) = self.pred.try_lock() {\n            *notify_lk = true;\n            self.condvar.notify_one();\n        }")),
 mut("c14-flag-only","C14",(R,"        *refresh_lk = true;\n        self.condvar.notify_one();","        let was = std::mem::replace(&mut *refresh_lk, true);\n        if was {\n            self.condvar.notify_one();\n        }")),
 mut("c15-by-name","C15",(S,"            .filter(|x| !details.iter().any(|y| y.1 == x.1))","            .filter(|x| !details.iter().any(|y| y.0 == x.0))")),
 mut("c15-revoke-stale","C15",(M,"                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    drop(ct_lk);\n\n","                    if !matches!(ct_lk.tokenstate(act_id), TokenState::Pending { .. }) {\n                        ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    }\n                    drop(ct_lk);\n\n")),
 mut("c16-prio","C16",(V,"        self.event_queue.lock().unwrap().push_back((act_name, kind));\n","        let mut queue = self.event_queue.lock().unwrap();\n        match kind {\n            TokenEvent::Revoked => queue.push_front((act_name, kind)),\n            _ => queue.push_back((act_name, kind)),\n        }\n        drop(queue);\n")),
 mut("c16-unwrap","C16",(V,"                                Err(e) => error!(\"Waiting on '{token_event_cmd:}' failed: {e:}\"),","                                Err(e) => {\n                                    error!(\"Waiting on '{token_event_cmd:}' failed: {e:}\");\n                                    return;\n                                }")),
 mut("c16-env","C16",(V,"                            .env(\"PIZAUTH_EVENT\", event.to_string())","                            .env(\"PIZAUTH_EVENT\", event.to_string().to_lowercase())")),
 mut("c16-empty-cmd","C16",(V,"                    token_event_cmd\n                } else {","                    if self.event_queue.lock().unwrap().len() > 100 {\n                        continue;\n                    }\n                    token_event_cmd\n                } else {")),
]
EDITS += [
 mut("c34-panic","C34",(H,"                    Ok(r) => format!(\"{code:}: {r:}\"),","                    Ok(r) => format!(\"{code:}: {}\", &r[..r.len().min(200)]),")),
 mut("c34-json-unwrap","C34",(H,"    if let Some(err_msg) = parsed[\"error\"].as_str() {","    if !parsed[\"error\"].is_null() {\n        let err_msg = parsed[\"error\"].as_str().unwrap();")),
 mut("c16-three","C16",(M,"    eventer.eventer(Arc::clone(&pstate))?;","    Arc::clone(&eventer).eventer(Arc::clone(&pstate))?;\n    eventer.eventer(Arc::clone(&pstate))?;")),
]

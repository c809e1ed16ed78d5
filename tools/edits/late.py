R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"
def mut(n, ids, *ed): return dict(name="l-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
def ref(n, ids, *ed): return dict(name="l-ref-"+n, kind="ref", ids=ids.split(), edits=list(ed))
LOCKCHK="    let mut ct_lk = pstate.ct_lock();\n    if !ct_lk.is_act_id_valid(act_id) {\n        return Ok(());\n    }\n\n    if let Some(err_msg)"
MATCH="    let act_id = match ct_lk.act_id_matching_token_state(&state) {"
PAIRSH='''    let mut pairs = vec![
        ("code", code.as_str()),'''
STORE='''                    refresh_token: refresh_token.map(|x| x.to_owned()),'''
EDITS=[
 # C03
 mut("c03-check-then-relock","C03",(H,LOCKCHK,"    if !pstate.ct_lock().is_act_id_valid(act_id) {\n        return Ok(());\n    }\n    let mut ct_lk = pstate.ct_lock();\n\n    if let Some(err_msg)")),
 mut("c03-by-name","C03 C04",(H,LOCKCHK,"    let mut ct_lk = pstate.ct_lock();\n    let act_id = match ct_lk.act_id_matching_token_state(&state) {\n        Some(x) => x,\n        None => return Ok(()),\n    };\n\n    if let Some(err_msg)")),
 mut("c03-ok-cmd","C03",(R,'''                                                        if ct_lk.is_act_id_valid(act_id) {
                                                            ct_lk.tokenstate_set_ongoing_refresh(
                                                                act_id, false,
                                                            );
                                                        }''','''                                                        if matches!(
                                                            ct_lk.tokenstate(act_id),
                                                            TokenState::Active { .. }
                                                        ) {
                                                            ct_lk.tokenstate_set_ongoing_refresh(
                                                                act_id, false,
                                                            );
                                                        }''')),
 mut("c03-revalidate-name","C03",(R,'''            Err(e) => {
                let mut ct_lk = pstate.ct_lock();
                if ct_lk.is_act_id_valid(act_id) {
                    let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    let msg = format!("Refreshing {} failed: {e}"''','''            Err(e) => {
                let mut ct_lk = pstate.ct_lock();
                let name = act_name.as_str();
                if let Some(act_id) = ct_lk.validate_act_name(name) {
                    let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    let msg = format!("Refreshing {} failed: {e}"'''),(R,"        let act = ct_lk.account(act_id);\n        let token_uri","        let act = ct_lk.account(act_id);\n        let act_name = act.name.clone();\n        let token_uri")),
 mut("c03-after-replace","C03",(R,'''                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    return RefreshKind::NoRefreshToken;''','''                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    info!("No refresh token for {}", ct_lk.account(act_id).name);
                    return RefreshKind::NoRefreshToken;''')),
 mut("c03-notify-stale","C03 C05",(N,"            let mut ct_lk = pstate.ct_lock();\n            let now = Instant::now();\n","            let ids = pstate.ct_lock().act_ids().collect::<Vec<_>>();\n            let mut ct_lk = pstate.ct_lock();\n            let now = Instant::now();\n"),(N,"            for act_id in ct_lk.act_ids().collect::<Vec<_>>() {","            for act_id in ids {")),
 mut("c03-cond-valid","C03",(H,LOCKCHK,"    let mut ct_lk = pstate.ct_lock();\n    if !ct_lk.is_act_id_valid(act_id) && parsed[\"error\"].is_string() {\n        return Ok(());\n    }\n\n    if let Some(err_msg)")),
 # C05
 mut("c05-write-locked","C05",(M,'''                        drop(ct_lk);
                        stream.write_all(response.as_bytes())?;
                    }
                    TokenState::Active {''','''                        stream.write_all(response.as_bytes())?;
                        drop(ct_lk);
                    }
                    TokenState::Active {''')),
 mut("c05-400-locked","C05",(H,'''        drop(ct_lk);
        http_400(stream);
        pstate.notifier''','''        http_400(stream);
        drop(ct_lk);
        pstate.notifier''')),
 mut("c05-status-locked","C05",(M,"            drop(ct_lk);\n            acts.sort();\n            if acts.is_empty()","            acts.sort();\n            if acts.is_empty()")),
 mut("c05-dump-locked","C05",(M,"            stream.write_all(&pstate.dump()?)?;","            let lk = pstate.ct_lock();\n            let n = lk.act_ids().count();\n            if n == 0 {\n                stream.write_all(b\"\")?;\n            }\n            drop(lk);\n            stream.write_all(&pstate.dump()?)?;")),
 mut("c05-reload-locked","C05",(M,"            match Config::from_path(&pstate.conf_path) {\n                Ok(new_conf) => {\n                    pstate.update_conf(new_conf);\n                    stream.write_all(b\"ok:\")?\n                }","            match Config::from_path(&pstate.conf_path) {\n                Ok(new_conf) => {\n                    pstate.update_conf(new_conf);\n                    let lk = pstate.ct_lock();\n                    let r = if lk.act_ids().next().is_some() { \"ok:\" } else { \"error:\" };\n                    stream.write_all(r.as_bytes())?\n                }")),
 mut("c05-temp-guard","C05",(R,'''                                                let cmd = cmd.to_owned();
                                                drop(ct_lk);
                                                match refresher''','''                                                let cmd = cmd.to_owned();
                                                drop(ct_lk);
                                                let _lk = pstate.ct_lock();
                                                match refresher''')),
 mut("c05-guard-in-scrutinee","C05",(N,"        match pstate.ct_lock().config().error_notify_cmd.clone() {\n            Some(cmd) => {\n                thread::spawn(move || match env::var","        match pstate.ct_lock().config().error_notify_cmd.clone() {\n            Some(cmd) => {\n                let f = (move || match env::var"),(N,'''                    Err(e) => error!("{e:}"),
                });
            }
            None => error!("{act_name:}: {msg:}"),''','''                    Err(e) => error!("{e:}"),
                });
                f();
            }
            None => error!("{act_name:}: {msg:}"),''')),
 # C06
 mut("c06-nested-notify","C06 C14",(Q,"    drop(ct_lk);\n    pstate.notifier.notify_changes();","    if ct_lk.config().auth_notify_cmd.is_some() {\n        pstate.notifier.notify_changes();\n    }\n    drop(ct_lk);"),(N,"                let next_wakeup","                let next_wakeup")) if False else
 mut("c06-order","C06",(R,"            let next_wakeup = refresher.next_wakeup(&pstate);\n            let mut refresh_lk = refresher.pred.lock().unwrap();","            let mut refresh_lk = refresher.pred.lock().unwrap();\n            let next_wakeup = refresher.next_wakeup(&pstate);"),(S,"            let mut lk = self.locked_state.lock().unwrap();\n            lk.update_conf(new_conf)","            let mut lk = self.locked_state.lock().unwrap();\n            self.refresher.notify_changes();\n            lk.update_conf(new_conf)")),
 mut("c06-self","C06",(M,"                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    drop(ct_lk);\n\n                    pstate","                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    if pstate.ct_lock().config().token_event_cmd.is_none() {\n                        stream.write_all(b\"ok:\")?;\n                        return Ok(());\n                    }\n                    drop(ct_lk);\n\n                    pstate")),
 mut("c06-queue-order","C06",(V,"        self.event_queue.lock().unwrap().push_back((act_name, kind));\n        let mut event_lk = self.pred.lock().unwrap();","        let mut q = self.event_queue.lock().unwrap();\n        q.push_back((act_name, kind));\n        let mut event_lk = self.pred.lock().unwrap();"),(V,"            *eventer_lk = false;\n            drop(eventer_lk);","            *eventer_lk = self.event_queue.lock().unwrap().len() > 1000;\n            drop(eventer_lk);")),
 mut("c06-queue-hold","C06",(V,"                    if let Some((act_name, event)) = self.event_queue.lock().unwrap().pop_front() {\n                        (act_name, event)\n                    } else {\n                        break;\n                    };\n                let token_event_cmd = if","                    if let Some((act_name, event)) = self.event_queue.lock().unwrap().pop_front() {\n                        if self.event_queue.lock().unwrap().len() > 100 {\n                            error!(\"Too many events\");\n                        }\n                        (act_name, event)\n                    } else {\n                        break;\n                    };\n                let token_event_cmd = if")),
 # C07
 mut("c07-state-ci","C07",(S,"if s == state))","if s.eq_ignore_ascii_case(state)))")),
 mut("c07-no-host","C07",(H,"        || expected_uri.host_str() != uri.host_str()\n","        || expected_uri.domain() != uri.domain()\n")),
 mut("c07-port-known","C07",(H,"        || expected_uri.port() != uri.port()\n","        || (uri.port().is_some() && expected_uri.port() != uri.port())\n")),
 mut("c07-first-last","C07",(H,"uri.query_pairs().find(|(k, _)| k == \"state\") {\n        Some((_, state)) => state.into_owned(),","uri.query_pairs().find(|(k, _)| k == \"state\" || k == \"session_state\") {\n        Some((_, state)) => state.into_owned(),")),
 mut("c07-trim","C07",(H,"        Some((_, state)) => state.into_owned(),","        Some((_, state)) => state.trim_end().to_owned(),")),
 mut("c07-contains","C07",(S,"if s == state))","if !state.is_empty() && s.contains(state)))")),
 mut("c07-error-early","C07",(H,"    let expected_uri = act.redirect_uri(pstate.http_port, pstate.https_port)?;\n    if expected_uri","    let expected_uri = act.redirect_uri(pstate.http_port, pstate.https_port)?;\n    if uri.query_pairs().any(|(k, _)| k == \"error\") {\n        ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n        drop(ct_lk);\n        http_400(stream);\n        return Ok(());\n    }\n    if expected_uri")),
 mut("c07-localhost","C07",(H,"        || expected_uri.host_str() != uri.host_str()\n","        || (expected_uri.host_str() != uri.host_str() && uri.host_str() != Some(\"127.0.0.1\"))\n")),
 # C08
 mut("c08-verifier-from-state","C08",(Q,"    rng().fill_bytes(&mut code_verifier);\n","    rng().fill_bytes(&mut code_verifier[..16]);\n")),
 mut("c08-challenge-plain","C08",(Q,"        (\"code_challenge_method\", \"S256\"),","        (\"code_challenge_method\", \"plain\"),")),
 mut("c08-global-redirect","C08",(Q,"    for (k, v) in &act.auth_uri_fields {\n","    for (k, v) in act.auth_uri_fields.iter().filter(|(k, _)| k != \"access_type\") {\n")),
 mut("c08-other-url","C08",(Q,"    Ok(url)","    let mut url = url;\n    url.set_fragment(None);\n    Ok(url)")),
 mut("c08-reuse","C08",(Q,"    let mut state = [0u8; STATE_LEN];\n    rng().fill_bytes(&mut state);\n    let state = URL_SAFE_NO_PAD.encode(state);\n","    let mut state = [0u8; STATE_LEN];\n    rng().fill_bytes(&mut state);\n    let state = match ct_lk.tokenstate(act_id) {\n        TokenState::Pending { state, .. } => state.clone(),\n        _ => URL_SAFE_NO_PAD.encode(state),\n    };\n")),
 mut("c08-challenge-trunc","C08",(Q,"URL_SAFE_NO_PAD.encode(hasher.finalize())","URL_SAFE_NO_PAD.encode(&hasher.finalize()[..24])")),
 mut("c08-len","C08",(M,"const STATE_LEN: usize = 8","const STATE_LEN: usize = 4")) if False else
 mut("c08-scope-first","C08",(Q,"    if !act.scopes.is_empty() {\n","    if act.scopes.len() > 1 {\n")),
 mut("c08-fields-dedup","C08",(Q,"        params.push((k.as_str(), v.as_str()));","        if !params.iter().any(|(x, _)| x == k) {\n            params.push((k.as_str(), v.as_str()));\n        }")),
 # C09
 mut("c09-auth-uri","C09",(H,"    let token_uri = act.token_uri.clone();\n","    let token_uri = if act.token_uri.is_empty() { act.auth_uri.clone() } else { act.token_uri.clone() };\n")),
 mut("c09-query","C09",(R,"            .post(token_uri.as_str())\n","            .post(token_uri.as_str())\n            .query(\"client_id\", client_id.as_str())\n")),
 mut("c09-basic","C09",(R,"            .post(token_uri.as_str())\n","            .post(token_uri.as_str())\n            .set(\"X-Client\", client_id.as_str())\n")),
 mut("c09-relock","C09",(H,"    let token_uri = act.token_uri.clone();\n    let client_id","    let name = act.name.clone();\n    drop(ct_lk);\n    let ct_lk = pstate.ct_lock();\n    let act_id2 = match ct_lk.validate_act_name(&name) {\n        Some(x) => x,\n        None => return Ok(()),\n    };\n    let act = ct_lk.account(act_id2);\n    let token_uri = act.token_uri.clone();\n    let client_id")),
 mut("c09-grant","C09",(R,"            (\"grant_type\", \"refresh_token\"),","            (\"grant_type\", \"refresh_token\"),\n            (\"scope\", \"\"),")),
 mut("c09-redirect-raw","C09",(H,"        (\"redirect_uri\", redirect_uri.as_str()),","        (\"redirect_uri\", uri.as_str()),")),
 mut("c09-code-trim","C09",(H,"        Some((_, code)) => code.to_string(),","        Some((_, code)) => code.trim().to_string(),")),
 mut("c09-secret-empty","C09",(H,"    if let Some(ref x) = client_secret {\n        pairs.push((\"client_secret\", x));\n    }\n\n    // At","    if let Some(ref x) = client_secret {\n        if pairs.len() > 5 {\n            pairs.push((\"client_secret\", x));\n        }\n    }\n\n    // At")),
]

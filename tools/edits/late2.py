R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"
def mut(n, ids, *ed): return dict(name="l-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
OKCMD='''                                                        if ct_lk.is_act_id_valid(act_id) {
                                                            ct_lk.tokenstate_set_ongoing_refresh(
                                                                act_id, false,
                                                            );
                                                        }'''
BADREST="                return Ok(());\n            }\n        }\n        \"restore\" => {"
EDITS=[
 mut("c10-type-ci","C10",(H,"        (Some(\"Bearer\"), Some(expires_in), Some(access_token), refresh_token) => {\n","        (Some(t), Some(expires_in), Some(access_token), refresh_token)\n            if t.trim() == \"Bearer\" =>\n        {\n")),
 mut("c10-expires-def","C10",(H,"        parsed[\"expires_in\"].as_u64(),\n        parsed[\"access_token\"]","        parsed[\"expires_in\"].as_u64().or(Some(3600)),\n        parsed[\"access_token\"]")),
 mut("c10-expires-f64","C10",(R,"            parsed[\"expires_in\"].as_u64(),\n","            parsed[\"expires_in\"].as_f64().map(|x| x as u64),\n")),
 mut("c10-err-after","C10",(R,"                if let Some(e) = v[\"error\"].as_str() {","                if let (Some(e), None) = (v[\"error\"].as_str(), v[\"access_token\"].as_str()) {")),
 mut("c10-now-early","C10",(R,"        drop(ct_lk);\n        let body = match ureq","        drop(ct_lk);\n        let now = Instant::now();\n        let body = match ureq"),(R,"                let now = Instant::now();\n                let mut ct_lk = pstate.ct_lock();\n                if ct_lk.is_act_id_valid(act_id) {\n                    let expiry","                let mut ct_lk = pstate.ct_lock();\n                if ct_lk.is_act_id_valid(act_id) {\n                    let expiry")),
 mut("c10-refresh-lost","C10",(R,"                    None => Some(refresh_token),\n                    Some(Value::String(x)) => Some(x.to_owned()),\n                    Some(_) => None,","                    None | Some(Value::Null) => Some(refresh_token),\n                    Some(Value::String(x)) if x.is_empty() => None,\n                    Some(Value::String(x)) => Some(x.to_owned()),\n                    Some(_) => None,")),
 mut("c10-refresh-old","C10",(R,"                    Some(Value::String(x)) => Some(x.to_owned()),","                    Some(Value::String(x)) if x.len() < 1024 => Some(x.to_owned()),\n                    Some(Value::String(_)) => Some(refresh_token),")),
 mut("c10-id-token","C10",(H,"        parsed[\"access_token\"].as_str(),\n        parsed[\"refresh_token\"]","        parsed[\"access_token\"].as_str().or(parsed[\"id_token\"].as_str()),\n        parsed[\"refresh_token\"]")),
 mut("c10-trim","C10",(H,"                    access_token: access_token.to_owned(),","                    access_token: access_token.trim().to_owned(),")),
 mut("c10-err-status","C10",(H,'''                let reason = match response.into_string() {
                    Ok(r) => format!("{code:}: {r:}"),''','''                let reason = match response.into_string() {
                    Ok(r) if code == 409 => {
                        body = Some(r);
                        break;
                    }
                    Ok(r) => format!("{code:}: {r:}"),''')),
 # C11
 mut("c11-ge","C11",(M,"let response = if access_token_expiry > &Instant::now() {","let response = if access_token_expiry > &Instant::now() || *ongoing_refresh {")),
 mut("c11-order","C11",(M,"                let ct_lk = pstate.ct_lock();\n                let act_id = match ct_lk.validate_act_name(act_name) {\n                    Some(x) => x,\n                    None => {\n                        drop(ct_lk);\n                        stream.write_all(format!(\"error:No account '{act_name:}'\").as_bytes())?;\n                        return Ok(());\n                    }\n                };\n                match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty => {","                let ct_lk = pstate.ct_lock();\n                let act_id = match ct_lk.validate_act_name(act_name.trim()) {\n                    Some(x) => x,\n                    None => match ct_lk.act_ids().next() {\n                        Some(x) if act_name.is_empty() => x,\n                        _ => {\n                            drop(ct_lk);\n                            stream.write_all(\n                                format!(\"error:No account '{act_name:}'\").as_bytes(),\n                            )?;\n                            return Ok(());\n                        }\n                    },\n                };\n                match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty => {")),
 mut("c11-url-always","C11",(M,"                        let response = if *with_url == \"withurl\" {","                        let response = if with_url.ends_with(\"url\") {")),
 mut("c11-grace","C11",(M,"let response = if access_token_expiry > &Instant::now() {","let response = if access_token_expiry.checked_add(std::time::Duration::from_secs(5)).is_some_and(|x| x > Instant::now()) {")),
 mut("c11-url-contains","C11",(M,"                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;\n                        if *with_url == \"withurl\" {\n                            stream.write_all(format!(\"pending:{url:}\").as_bytes())?;\n                        } else {\n                            stream.write_all(b\"pending:\")?;\n                        }\n                    }\n                    TokenState::Active { .. } => {","                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;\n                        if *with_url != \"withouturl\" {\n                            stream.write_all(format!(\"pending:{url:}\").as_bytes())?;\n                        } else {\n                            stream.write_all(b\"pending:\")?;\n                        }\n                    }\n                    TokenState::Active { .. } => {")),
 # C12
 mut("c12-no-check","C12",(R,"                    if !*ongoing_refresh {\n                        *ongoing_refresh = true;","                    if !*ongoing_refresh || ct_lk.config().transient_error_if_cmd.is_some() {\n                        *ongoing_refresh = true;")),
 mut("c12-ok-leaves","C12",(R,OKCMD,OKCMD.replace("if ct_lk.is_act_id_valid(act_id) {","if ct_lk.is_act_id_valid(act_id)\n                                                            && ct_lk.config().transient_error_if_cmd.is_some()\n                                                        {"))),
 mut("c12-late-mark","C12",(R,"                        *ongoing_refresh = true;\n                        let act_id = ct_lk.tokenstate_replace(act_id, new_ts);\n","                        let act_id = ct_lk.tokenstate_replace(act_id, new_ts);\n")),
 mut("c12-stored-ongoing","C12",(R,"                            access_token_expiry: expiry,\n                            ongoing_refresh: false,","                            access_token_expiry: expiry,\n                            ongoing_refresh: expires_in == 0,")),
 mut("c12-stale-attempt","C12 C13",(R,"                Some(r) => {\n                    *last_refresh_attempt = Some(Instant::now());","                Some(r) if r.is_empty() => return RefreshKind::AccountOrTokenStateChanged,\n                Some(r) => {\n                    *last_refresh_attempt = Some(Instant::now());")),
 mut("c12-kind","C12",(R,"            Ok(response) => match response.into_string() {\n                Ok(s) => s,\n                Err(e) => {\n                    return RefreshKind::TransitoryError(act_id, e.to_string());","            Ok(response) => match response.into_string() {\n                Ok(s) => s,\n                Err(_) => {\n                    return RefreshKind::AccountOrTokenStateChanged;")),
 mut("c12-cmd-missing-reset","C12",(R,"                                            } else {\n                                                ct_lk.tokenstate_set_ongoing_refresh(act_id, false);\n                                                drop(ct_lk);","                                            } else {\n                                                drop(ct_lk);")),
 # C13
 mut("c13-every-7","C13",(R,"const TRANSIENT_ERROR_RETRIES: u64 = 6;","const TRANSIENT_ERROR_RETRIES: u64 = 7;")),
 mut("c13-once","C13",(R,"                                            .rem_euclid(TRANSIENT_ERROR_RETRIES)\n                                            == 0\n","                                            .saturating_sub(TRANSIENT_ERROR_RETRIES)\n                                            == 0\n")),
 mut("c13-count-reset","C13",(R,"                                        *consecutive_refresh_fails += 1;","                                        *consecutive_refresh_fails =\n                                            (*consecutive_refresh_fails + 1).min(6);")),
 mut("c13-dns","C13",(R,"                    || t.kind() == ureq::ErrorKind::Dns\n","")),
 mut("c13-more-kinds","C13",(R,"                    || t.kind() == ureq::ErrorKind::Dns\n","                    || t.kind() == ureq::ErrorKind::Dns\n                    || t.kind() == ureq::ErrorKind::TooManyRedirects\n")),
 mut("c13-timeout-ok","C13",(R,'''                        child.wait().ok();
                        Err(format!("'{cmd:}' exceeded timeout"))''','''                        child.wait().ok();
                        Ok(())''')),
 mut("c13-signal-ok","C13",(R,"                        if status.success() {\n                            Ok(())","                        if status.success() || status.code().is_none() {\n                            Ok(())")),
 mut("c13-shell-missing-ok","C13",(R,"            Err(e) => Err(format!(\"{e:}\")),\n        }\n    }","            Err(_) => Ok(()),\n        }\n    }")),
 mut("c13-503","C13",(R,"            Err(ureq::Error::Status(code, response)) => {","            Err(ureq::Error::Status(503, response)) => {\n                return RefreshKind::TransitoryError(act_id, response.status_text().to_string());\n            }\n            Err(ureq::Error::Status(code, response)) => {")),
 # C27
 mut("c27-buf","C27",(H,"BufReader::new(stream.take(MAX_HTTP_REQUEST_SIZE as u64))","BufReader::with_capacity(64 * 1024, stream.take(4 * MAX_HTTP_REQUEST_SIZE as u64))")),
 mut("c27-size","C27",(H,"const MAX_HTTP_REQUEST_SIZE: usize = 16 * 1024;","const MAX_HTTP_REQUEST_SIZE: usize = 16 * 1024 * 1024;")),
 mut("c27-no-take","C27",(H,"BufReader::new(stream.take(MAX_HTTP_REQUEST_SIZE as u64))","BufReader::new(stream)")),
 mut("c27-first-line","C27",(H,"    let mut rdr = BufReader::new(stream.take(MAX_HTTP_REQUEST_SIZE as u64));\n    let mut req_line = String::new();\n    rdr.read_line(&mut req_line)?;\n","    let mut req_line = String::new();\n    BufReader::new(&mut *stream).read_line(&mut req_line)?;\n    let mut rdr = BufReader::new(stream.take(MAX_HTTP_REQUEST_SIZE as u64));\n")),
 mut("c27-per-line","C27",(H,"        let mut line = String::new();\n        rdr.read_line(&mut line)?;\n","        let mut line = String::new();\n        rdr.get_mut().set_limit(MAX_HTTP_REQUEST_SIZE as u64);\n        rdr.read_line(&mut line)?;\n")),
 mut("c27-drain","C27",(H,"    // Find the host field.\n    let mut host = None;\n","    if req.len() > 100 {\n        std::io::copy(&mut rdr.into_inner().into_inner(), &mut std::io::sink())?;\n        return Err(\"Too many headers\".into());\n    }\n\n    // Find the host field.\n    let mut host = None;\n")),
 # C30
 mut("c30-swap","C30",(M,"        http_port,\n        https_port,\n        pub_key_str,","        https_port.or(http_port),\n        https_port,\n        pub_key_str,")),
 mut("c30-info","C30",(M,"                match pstate.https_port {\n                    Some(x) => x.to_string(),","                match pstate.https_port.and(pstate.http_port) {\n                    Some(x) => x.to_string(),")),
 mut("c30-https-false","C30",(H,"request(pstate, stream, true)","request(pstate, stream, pstate_https)"),(H,"            let pstate = Arc::clone(&pstate);\n            thread::spawn(move || {\n                // convert","            let pstate = Arc::clone(&pstate);\n            let pstate_https = pstate.http_port.is_none();\n            thread::spawn(move || {\n                // convert")),
 mut("c30-fallback","C30",(H,"            let listener = TcpListener::bind(http_listen)?;\n            Ok(Some((listener.local_addr()?.port(), listener)))","            let listener = TcpListener::bind(http_listen)\n                .or_else(|_| TcpListener::bind(\"127.0.0.1:0\"))?;\n            Ok(Some((listener.local_addr()?.port(), listener)))")),
 mut("c30-default","C30",(C,"const HTTP_LISTEN_DEFAULT: &str = \"127.0.0.1:0\";","const HTTP_LISTEN_DEFAULT: &str = \"0.0.0.0:0\";")),
 mut("c30-parse-port","C30",(H,"            let listener = TcpListener::bind(http_listen)?;\n            Ok(Some((listener.local_addr()?.port(), listener)))","            let listener = TcpListener::bind(http_listen)?;\n            let port = match http_listen.rsplit(':').next().and_then(|x| x.parse().ok()) {\n                Some(x) => x,\n                None => listener.local_addr()?.port(),\n            };\n            Ok(Some((port, listener)))")),
 mut("c30-none","C30",(H,"        None => Ok(None),\n    }\n}\n\npub fn http_server(","        None => {\n            let listener = TcpListener::bind(\"127.0.0.1:0\")?;\n            Ok(Some((listener.local_addr()?.port(), listener)))\n        }\n    }\n}\n\npub fn http_server(")),
 mut("c30-redirect-port","C30",(C,"        if https_port.is_some() && url.scheme() == \"https\" {","        if https_port.is_some() && (url.scheme() == \"https\" || http_port.is_none()) {")),
 # C33
 mut("c33-ok-early","C33",(M,"                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    drop(ct_lk);\n\n                    pstate\n                        .eventer\n                        .token_event(act_name.to_owned(), TokenEvent::Revoked);\n                    stream.write_all(b\"ok:\")?;","                    stream.write_all(b\"ok:\")?;\n                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    drop(ct_lk);\n\n                    pstate\n                        .eventer\n                        .token_event(act_name.to_owned(), TokenEvent::Revoked);")),
 mut("c33-only-active","C33",(M,"                Some(act_id) => {\n                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);","                Some(act_id) => {\n                    if matches!(ct_lk.tokenstate(act_id), TokenState::Active { ongoing_refresh: true, .. }) {\n                        drop(ct_lk);\n                        stream.write_all(b\"ok:\")?;\n                        return Ok(());\n                    }\n                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);")),
 # C34
 mut("c34-parse-quiet","C34",(H,"            fail(pstate, act_id, &format!(\"Invalid JSON: {e}\"))?;\n            return Ok(());","            return Err(e.into());")),
 mut("c34-url","C34",(H,"        None => {\n            fail(pstate, act_id, &format!(\"couldn't connect to {token_uri:}\"))?;","        None => {\n            warn!(\"couldn't connect to {token_uri:}\");")),
 mut("c34-fail-active-only","C34",(H,"        let is_active = matches!(ct_lk.tokenstate(act_id), TokenState::Active { .. });\n        let act_id","        let is_active = matches!(ct_lk.tokenstate(act_id), TokenState::Active { .. });\n        if !is_active && msg.is_empty() {\n            return Ok(());\n        }\n        let act_id")),
 mut("c34-notify-first","C34",(H,"            drop(ct_lk);\n            fail(pstate, act_id, \"invalid response received\")?;","            drop(ct_lk);\n            warn!(\"invalid response received\");")),
 # C35
 mut("c35-inline","C35",(H,"            thread::spawn(|| {\n                if let Err(e) = request(pstate, stream, false) {\n                    warn!(\"{e:}\");\n                }\n            });","            if let Err(e) = request(pstate, stream, false) {\n                warn!(\"{e:}\");\n            }")),
 mut("c35-join","C35",(H,"            thread::spawn(|| {\n                if let Err(e) = request(pstate, stream, false) {\n                    warn!(\"{e:}\");\n                }\n            });","            let t = thread::spawn(|| {\n                if let Err(e) = request(pstate, stream, false) {\n                    warn!(\"{e:}\");\n                }\n            });\n            t.join().ok();")),
 mut("c35-conn-break","C35",(H,"                warn!(\"{e:}\");\n                continue;","                warn!(\"{e:}\");\n                break;")),
 mut("c35-map-while","C35",(H,"        for stream in listener.incoming().flatten() {","        for stream in listener.incoming().map_while(|x| x.ok()) {")),
 mut("c35-unwrap","C35",(H,"        for stream in listener.incoming().flatten() {","        for stream in listener.incoming() {\n            let stream = stream.unwrap();")),
 mut("c35-lock","C35",(H,"            let pstate = Arc::clone(&pstate);\n            thread::spawn(|| {","            let pstate = Arc::clone(&pstate);\n            if pstate.ct_lock().act_ids().next().is_none() {\n                break;\n            }\n            thread::spawn(|| {")),
 mut("c35-peek","C35",(H,"            let pstate = Arc::clone(&pstate);\n            thread::spawn(|| {","            let pstate = Arc::clone(&pstate);\n            let mut b = [0u8; 1];\n            if matches!(stream.peek(&mut b), Ok(0)) {\n                continue;\n            }\n            thread::spawn(|| {")),
]

R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"; U="src/user_sender.rs"; A="src/main.rs"
def mut(n, ids, *ed): return dict(name="m4-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
EDITS=[
 mut("c17-login-shell","C17",(V,'.args(["-c", &token_event_cmd])','.args(["-l", "-c", &token_event_cmd])')),
 mut("c17-trim","C17",(N,'''                            .env("PIZAUTH_URL", url.as_str())
                            .args(["-c", &cmd])''','''                            .env("PIZAUTH_URL", url.as_str())
                            .args(["-c", cmd.split('#').next().unwrap_or("")])''')),
 mut("c17-wrong-cmd","C17",(N,"match pstate.ct_lock().config().error_notify_cmd.clone() {","match pstate\n            .ct_lock()\n            .config()\n            .error_notify_cmd\n            .clone()\n            .or_else(|| pstate.ct_lock().config().auth_notify_cmd.clone())\n        {")),
 mut("c17-fallback-cmd","C17",(N,"match pstate.ct_lock().config().error_notify_cmd.clone() {","let cmd = {\n            let ct_lk = pstate.ct_lock();\n            let conf = ct_lk.config();\n            conf.error_notify_cmd\n                .clone()\n                .or_else(|| conf.auth_notify_cmd.clone())\n        };\n        match cmd {")),
 mut("c17-bin-sh","C17",(N,'''                thread::spawn(move || match env::var("SHELL") {
                    Ok(s) => {
                        match Command::new(s)
                            .env("PIZAUTH_ACCOUNT", act_name.as_str())
                            .env("PIZAUTH_MSG", msg)''','''                thread::spawn(move || match env::var("PIZAUTH_SHELL").or_else(|_| env::var("SHELL")) {
                    Ok(s) => {
                        match Command::new(s)
                            .env("PIZAUTH_ACCOUNT", act_name.as_str())
                            .env("PIZAUTH_MSG", msg)''')),
 mut("c17-env-acct","C17",(R,'''                .env("PIZAUTH_ACCOUNT", act_name)
''','''                .env("PIZAUTH_ACCOUNT", act_name.to_lowercase())
''')),
 mut("c17-arg","C17",(R,'''.args(["-c", &cmd])''','''.args(["-c", &format!("{cmd} {act_name}")])''')),
 mut("c18-code","C18",(H,'''        Some((_, code)) => code.to_string(),''','''        Some((_, code)) => {
            warn!("Received authorisation code {code}");
            code.to_string()
        }''')),
 mut("c18-body","C18",(H,'&format!("Invalid JSON: {e}")','&format!("Invalid JSON: {e}: {body}")')),
 mut("c18-invalid","C18",(H,'fail(pstate, act_id, "invalid response received")?;','fail(\n                pstate,\n                act_id,\n                &format!("invalid response received: {parsed}"),\n            )?;')),
 mut("c18-status","C18",(M,'''                        access_token_expiry,
                        last_refresh_attempt,
                        ..
                    } => {
                        if *access_token_expiry > Instant::now() {
                            format!(
                                "Active access token (obtained {}; expires {})",''','''                        access_token_expiry,
                        last_refresh_attempt,
                        access_token,
                        ..
                    } => {
                        if *access_token_expiry > Instant::now() {
                            format!(
                                "Active access token {} (obtained {}; expires {})",
                                access_token.chars().take(4).collect::<String>(),''')),
 mut("c18-debug","C18",(R,'''        let act = ct_lk.account(act_id);
        let token_uri = act.token_uri.clone();''','''        let act = ct_lk.account(act_id);
        info!("Refreshing {:?}", act);
        let token_uri = act.token_uri.clone();''')),
 mut("c18-refresh-body","C18",(R,'RefreshKind::PermanentError("Received JSON in unexpected format".to_string())','RefreshKind::PermanentError(format!("Received JSON in unexpected format: {body}"))')),
 mut("c19-leaf-only","C19",(A,"    md(&p);\n    p.push(PIZAUTH_CACHE_LEAF);","    if !p.exists() {\n        fs::create_dir(&p).ok();\n    }\n    p.push(PIZAUTH_CACHE_LEAF);")),
 mut("c19-group","C19",(A,"PermissionsExt::from_mode(0o700)","PermissionsExt::from_mode(0o750)")),
 mut("c19-only-new","C19",(A,'''            fs::create_dir(p).unwrap_or_else(|e| fatal(&format!("Can't create cache dir: {e}")));
        }
        fs::set_permissions''','''            fs::create_dir(p).unwrap_or_else(|e| fatal(&format!("Can't create cache dir: {e}")));
        } else {
            return;
        }
        fs::set_permissions''')),
 mut("c19-ignore","C19",(A,'''.unwrap_or_else(|_| {
            fatal(&format!(
                "Can't set permissions for {} to 0700 (octal)",
                p.to_str()
                    .unwrap_or("<path cannot be represented as UTF-8>")
            ))
        });''','''.unwrap_or_else(|_| {
            eprintln!(
                "Can't set permissions for {} to 0700 (octal)",
                p.to_str()
                    .unwrap_or("<path cannot be represented as UTF-8>")
            )
        });''')),
 mut("c20-any-err","C20",(A,"if UnixStream::connect(&sock_path).is_ok() {",'if UnixStream::connect(&sock_path).is_ok_and(|x| x.peer_addr().is_ok_and(|y| !y.is_unnamed()) && x.set_nonblocking(true).is_ok() && x.take_error().is_err()) {')),
 mut("c20-bind-retry","C20",(M,"    let listener = UnixListener::bind(sock_path)?;","    let listener = match UnixListener::bind(&sock_path) {\n        Ok(x) => x,\n        Err(_) => {\n            std::fs::remove_file(&sock_path)?;\n            UnixListener::bind(&sock_path)?\n        }\n    };")),
 mut("c20-unlink-on-exit","C20",(A,'''            if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {
''','''            if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {
                fs::remove_file(sock_path).ok();
''')),
 mut("c21-split-all","C21",(M,'''            if let [with_url, act_name] = &rest.splitn(2, ' ').collect::<Vec<_>>()[..] {
                let ct_lk = pstate.ct_lock();
                let act_id = match ct_lk.validate_act_name(act_name) {
                    Some(x) => x,
                    None => {
                        drop(ct_lk);
                        stream.write_all(format!("error:No account '{act_name:}'").as_bytes())?;
                        return Ok(());
                    }
                };
                match ct_lk.tokenstate(act_id) {
                    TokenState::Empty => {''','''            if let [with_url, act_name] = &rest.split(' ').collect::<Vec<_>>()[..] {
                let ct_lk = pstate.ct_lock();
                let act_id = match ct_lk.validate_act_name(act_name) {
                    Some(x) => x,
                    None => {
                        drop(ct_lk);
                        stream.write_all(format!("error:No account '{act_name:}'").as_bytes())?;
                        return Ok(());
                    }
                };
                match ct_lk.tokenstate(act_id) {
                    TokenState::Empty => {''')),
 mut("c21-take","C21",(M,"    stream.read_to_end(&mut buf)?;\n    let (cmd","    (&mut stream).take(64 * 1024).read_to_end(&mut buf)?;\n    let (cmd")),
 mut("c21-trim","C21",(M,"let act_name = std::str::from_utf8(rest)?;","let act_name = std::str::from_utf8(rest)?.trim();")),
 mut("c21-no-shutdown","C21",(U,'''        .write_all(format!("revoke:{account}").as_bytes())
        .map_err(|_| "Socket not writeable")?;
    stream.shutdown(Shutdown::Write)?;''','''        .write_all(format!("revoke:{account}").as_bytes())
        .map_err(|_| "Socket not writeable")?;
    stream.shutdown(Shutdown::Read)?;''')),
 mut("c21-reply-colon","C21",(U,'''    match rtn.splitn(2, ':').collect::<Vec<_>>()[..] {
        ["access_token", x] => {''','''    match rtn.split(':').collect::<Vec<_>>()[..] {
        ["access_token", x] => {''')),
 mut("c22-print-err","C22",(U,'''        ["pending", url] => {
            Err(format!("Access token unavailable until authorised with URL {url:}").into())
        }
        ["scheduled", ""] => Ok(()),''','''        ["pending", url] => {
            println!("Access token unavailable until authorised with URL {url:}");
            Ok(())
        }
        ["scheduled", ""] => Ok(()),''')),
 mut("c22-exit0","C22",(A,'''            if let Err(e) = user_sender::revoke(&cache_path, &matches.free[0]) {
                error!("{e:}");
                process::exit(1);
            }''','''            if let Err(e) = user_sender::revoke(&cache_path, &matches.free[0]) {
                error!("{e:}");
                process::exit(i32::from(!e.to_string().starts_with("No account")));
            }''')),
 mut("c22-status-lenient","C22",(U,'''        ["ok", x] => {
            println!("{x:}");
            Ok(())
        }
        ["error", cause] => Err(cause.into()),''','''        ["ok", x] | ["error", x] => {
            println!("{x:}");
            Ok(())
        }''')),
 mut("c22-empty-reply","C22",(U,'''    match rtn.splitn(2, ':').collect::<Vec<_>>()[..] {
        ["ok", ""] => Ok(()),
        ["error", msg] => Err(msg.into()),''','''    match rtn.splitn(2, ':').collect::<Vec<_>>()[..] {
        ["ok", ""] | [""] => Ok(()),
        ["error", msg] => Err(msg.into()),''')),
 mut("c23-fields-sorted","C23",(C,'''                            .collect::<Vec<(String, String)>>(),
                    );''','''                            .collect::<HashMap<String, String>>()
                            .into_iter()
                            .collect::<Vec<(String, String)>>(),
                    );''')),
 mut("c23-scopes-dedup","C23",(C,'''                            .map(|sp| unescape_str(lexer.span_str(*sp)))
''','''                            .map(|sp| unescape_str(lexer.span_str(*sp)))
                            .filter(|x| !x.is_empty())
''')),
 mut("c23-secret-empty","C23",(C,'''            client_id,
            client_secret,
            redirect_uri: redirect_uri''','''            client_id,
            client_secret: client_secret.filter(|x| !x.is_empty()),
            redirect_uri: redirect_uri''')),
 mut("c23-listen-trim","C23",(C,'''http_listen: http_listen.unwrap_or_else(|| Some(HTTP_LISTEN_DEFAULT.to_owned())),
''','''http_listen: http_listen
                .unwrap_or_else(|| Some(HTTP_LISTEN_DEFAULT.to_owned()))
                .map(|x| x.replace("0.0.0.0", "127.0.0.1")),
''')),
 mut("c23-order","C23",(C,'''            refresh_at_least,
            refresh_before_expiry,
            refresh_retry,
            token_event_cmd,
        })''','''            refresh_at_least,
            refresh_before_expiry: refresh_before_expiry.or(refresh_retry),
            refresh_retry,
            token_event_cmd,
        })''')),
 mut("c24-first","C24",(C,"for (act_name, act) in &accounts {","for (act_name, act) in accounts.iter().take(1) {")),
 mut("c24-none-both","C24",(C,'if let (&Some(None), &Some(None)) = (&http_listen, &https_listen) {','if accounts.is_empty() && matches!((&http_listen, &https_listen), (&Some(None), &Some(None))) {')),
 mut("c24-days","C23",(C,"'d' => num.checked_mul(86400)","'d' => num.checked_mul(86_000)")),
 mut("c24-saturating","C24",(C,'''num.checked_mul(60).ok_or("Number too big")?''','''num.saturating_mul(60)''')),
 mut("c24-case","C23",(C,'''if accounts.contains_key(&act_name) {''','''if accounts.contains_key(&act_name) && act_name.is_ascii() {''')),
 mut("c24-scheme","C24",(C,'''if x.scheme() == "http" || x.scheme() == "https" {''','''if x.scheme().starts_with("http") || name == "redirect_uri" {''')),
 mut("c26-fudge","C26",(R,"Some(t) => t <= now,","Some(t) => t <= now + Duration::from_secs(5),")),
 mut("c26-retry-fallback","C26",(C,'''            .or(config.refresh_retry)
            .unwrap_or(REFRESH_RETRY_DEFAULT)''','''            .or(config.refresh_retry)
            .or(config.refresh_at_least)
            .unwrap_or(REFRESH_RETRY_DEFAULT)''')),
 mut("c26-min","C26",(C,'''        self.refresh_before_expiry
            .or(config.refresh_before_expiry)
            .unwrap_or(REFRESH_BEFORE_EXPIRY_DEFAULT)''','''        self.refresh_before_expiry
            .max(config.refresh_before_expiry)
            .unwrap_or(REFRESH_BEFORE_EXPIRY_DEFAULT)''')),
 mut("c26-backoff","C26",(R,"lra.checked_add(act.refresh_retry(ct_lk.config()))","lra.checked_add(act.refresh_retry(ct_lk.config()) + Duration::from_secs(1))")),
 mut("c26-lra-expired","C26",(R,"                if let Some(lra) = last_refresh_attempt {","                if let Some(lra) = last_refresh_attempt.filter(|x| x > access_token_expiry) {")),
 mut("c27-header-count","C27",(H,"stream.take(MAX_HTTP_REQUEST_SIZE as u64)","stream.take((MAX_HTTP_REQUEST_SIZE as u64) << 20)")),
 mut("c28-millis","C28",(M,"        .checked_add(Duration::from_secs(expires_in))\n","        .checked_add(Duration::from_millis(expires_in * 1000))\n")),
 mut("c28-instant-add","C28",(M,"        .checked_add(Duration::from_secs(expires_in))\n","        .checked_add(Duration::from_secs(expires_in).mul_f64(0.99))\n")),
 mut("c28-slice","C28",(H,'''        Some((_, code)) => code.to_string(),''','''        Some((_, code)) => {
            if &code[..1] == " " {
                http_400(stream);
                return Ok(());
            }
            code.to_string()
        }''')),
 mut("c28-path","C28",(H,"    let path = req_line_sp[1];\n","    let path = req_line_sp[1];\n    let path = &path[path.find('/').unwrap()..];\n")),
 mut("c29-half","C29",(N,"t.checked_add(notify_interval)","t.checked_add(notify_interval / 2)")),
 mut("c29-only-with-cmd","C29",(N,'''                    let act = ct_lk.account(act_id);
                    if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                        auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                    }
                    ct_lk.tokenstate_set_last_notification(act_id, now);''','''                    let act = ct_lk.account(act_id);
                    if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                        if auth_cmds.is_empty() {
                            auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                        }
                    }
                    ct_lk.tokenstate_set_last_notification(act_id, now);''')),
 mut("c29-wake","C29",(N,"t.checked_add(ct_lk.config().auth_notify_interval)","t.checked_add(ct_lk.config().auth_notify_interval * 2)")),
 mut("c30-swap-later","C30",(M,"    let pstate = Arc::new(AuthenticatorState::new(\n        conf_path,\n        conf,\n        http_port,\n        https_port,","    let pstate = Arc::new(AuthenticatorState::new(\n        conf_path,\n        conf,\n        http_port.or(https_port),\n        https_port,")),
 mut("c31-before-parse","C31",(A,'''            let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));

            let daemonise = !matches.opt_present("d");''','''            let daemonise = !matches.opt_present("d");
            if daemonise && conf_path.is_relative() {
                daemon(true, false).ok();
            }
            let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));''')),
 mut("c31-twice","C31",(A,'''            if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {''','''            let conf = Config::from_path(&conf_path).unwrap_or(conf);
            if daemonise && matches.opt_count("v") > 4 {
                daemon(true, false).ok();
            }
            if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {''')),
 mut("c32-unexpired","C32",(S,'''        for (act_name, _, ts) in &self.details {
            acts.insert(''','''        for (act_name, _, ts) in &self.details {
            if let TokenState::Active {
                access_token_expiry,
                ..
            } = ts
            {
                if *access_token_expiry < Instant::now() {
                    continue;
                }
            }
            acts.insert(''')),
 mut("c32-nonce","C32",(S,"rng().fill(&mut nonce[..]);","rng().fill(&mut nonce[..8]);")),
 mut("c32-short","C32",(S,"        let d = cipher\n            .decrypt(","        let encrypted = &encrypted[..encrypted.len() / 16 * 16];\n        let d = cipher\n            .decrypt(")),
 mut("c32-fails","C32",(S,'''            } => TokenStateDump::Active {
                access_token: access_token.to_owned(),''','''            } if access_token.is_empty() => {
                let _ = (access_token_obtained, access_token_expiry, refresh_token);
                TokenStateDump::Empty
            }
            TokenState::Active {
                access_token,
                access_token_obtained,
                access_token_expiry,
                refresh_token,
                ongoing_refresh: _,
                consecutive_refresh_fails: _,
                last_refresh_attempt: _,
            } => TokenStateDump::Active {
                access_token: access_token.to_owned(),''')),
 mut("c33-expired-empties","C33",(M,'''            let ct_lk = pstate.ct_lock();
            let mut acts = Vec::new();
            for act_id in ct_lk.act_ids() {
''','''            let mut ct_lk = pstate.ct_lock();
            let mut acts = Vec::new();
            for act_id in ct_lk.act_ids().collect::<Vec<_>>() {
                if matches!(ct_lk.tokenstate(act_id), TokenState::Active { access_token_expiry, refresh_token: None, .. } if *access_token_expiry < Instant::now()) {
                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    continue;
                }
''')),
 mut("c33-revoke-active","C33",(M,'''                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    drop(ct_lk);

                    pstate
                        .eventer''','''                    if matches!(ct_lk.tokenstate(act_id), TokenState::Active { ongoing_refresh: false, .. }) {
                        ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                    }
                    drop(ct_lk);

                    pstate
                        .eventer''')),
 mut("c35-limit","C35",(H,'''            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {
                if let Err(e) = request(pstate, stream, false) {
                    warn!("{e:}");
                }
            });''','''            static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            if LIVE.load(std::sync::atomic::Ordering::SeqCst) > 64 {
                continue;
            }
            LIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {
                if let Err(e) = request(pstate, stream, false) {
                    warn!("{e:}");
                }
                LIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            });''')),
 mut("c35-mutex","C35",(H,'''            thread::spawn(|| {
                if let Err(e) = request(pstate, stream, false) {''','''            thread::spawn(|| {
                static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
                let _one = ONE.lock().unwrap();
                if let Err(e) = request(pstate, stream, false) {''')),
 mut("c39-refresh-active","C39",(M,'''                        pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);
                        stream.write_all(b"scheduled:")?;''','''                        let notify = rest.len() % 2 == 0;
                        if notify {
                            pstate.refresher.notify_changes();
                        } else {
                            pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);
                        }
                        stream.write_all(b"scheduled:")?;''')),
 mut("c39-stale-url","C39",(M,'''                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;
                        if *with_url == "withurl" {
                            stream.write_all(format!("pending:{url:}").as_bytes())?;
                        } else {
                            stream.write_all(b"pending:")?;
                        }
                    }
                    TokenState::Active { .. } => {''','''                        let old = match ct_lk.tokenstate(act_id) {
                            TokenState::Pending { url, .. } => Some(url.clone()),
                            _ => None,
                        };
                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;
                        let url = old.unwrap_or(url);
                        if *with_url == "withurl" {
                            stream.write_all(format!("pending:{url:}").as_bytes())?;
                        } else {
                            stream.write_all(b"pending:")?;
                        }
                    }
                    TokenState::Active { .. } => {''')),
 mut("c39-reload-ok","C39 C25",(M,'''                Err(e) => stream.write_all(format!("error:{e:}").as_bytes())?,
            }
            return Ok(());
        }
        "refresh" => {''','''                Err(e) if e.is_empty() => stream.write_all(b"ok:")?,
                Err(e) => stream.write_all(format!("error:{e:}").as_bytes())?,
            }
            return Ok(());
        }
        "refresh" => {''')),
 mut("c39-expired-msg","C39",(M,'''                        } else if *ongoing_refresh {
                            "error''','''                        } else if *ongoing_refresh || access_token.is_empty() {
                            "error''')),
 mut("c40-two-locks","C40",(M,'''                acts.push(format!("{}: {st}", act.name));''','''                if !acts.iter().any(|x: &String| x.starts_with(act.name.as_str())) {
                    acts.push(format!("{}: {st}", act.name));
                }''')),
 mut("c40-expiry-lra","C40",(M,'''                        } else if let Some(i) = last_refresh_attempt {
                            format!(
                                "Access token expired (last refresh attempt {})",
                                instant_fmt(*i)''','''                        } else if let Some(i) = last_refresh_attempt {
                            format!(
                                "Access token expired (last refresh attempt {})",
                                instant_fmt(std::cmp::max(*i, *access_token_expiry))''')),
 mut("c40-take","C40",(M,"            for act_id in ct_lk.act_ids() {\n                let act = ct_lk.account(act_id);\n                let st","            for act_id in ct_lk.act_ids().take(256) {\n                let act = ct_lk.account(act_id);\n                let st")),
 mut("c40-name","C40",(M,'''acts.push(format!("{}: {st}", act.name));''','''acts.push(format!("{}: {st}", act.client_id));''')),
 mut("c41-trunc","C41",(M,'''            .public_key_raw()
            .iter()
''','''            .public_key_raw()
            .iter()
            .skip(1)
''')),
 mut("c42-host","C42",(H,'''                "No pending token matches request state: request a fresh token",''','''                &format!("No pending token matches request state {}: request a fresh token", uri.path()),''')),
 mut("c11-precision","C11",(M,'format!("access_token:{access_token:}")','format!("access_token:{access_token:.4096}")')),
 mut("c11-width","C11 C21",(M,'format!("access_token:{access_token:}")','format!("access_token:{access_token:10}")')),
 mut("c40-precision","C40",(M,'acts.push(format!("{}: {st}", act.name));','acts.push(format!("{:.32}: {st}", act.name));')),
 mut("c41-precision","C41",(M,'format!("{x:02X}")','format!("{:.1}", format!("{x:02X}"))')),
]

import os, re
R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"; U="src/user_sender.rs"; A="src/main.rs"
REPO=os.environ.get("PZ_REPO","/repo")
def ref(n, *ed): return dict(name="m5-ref-"+n, kind="ref", ids=[], edits=list(ed))
def whole(f, fn):
    t=open(os.path.join(REPO,f)).read()
    n=fn(t)
    assert n!=t, f
    return (f, t, n)
def reps(f, *pairs):
    def go(t):
        for a,b in pairs:
            assert a in t, (f,a)
            t=t.replace(a,b)
        return t
    return whole(f, go)
def detail_struct(t):
    t=t.replace('''    details: Vec<(String, AccountId, TokenState)>,
}''','''    details: Vec<Detail>,
}

/// The current state of an account.
#[derive(Clone)]
struct Detail {
    name: String,
    id: AccountId,
    ts: TokenState,
}''')
    t=t.replace("details.push((act_name.to_owned(), act_id, TokenState::Empty));","details.push(Detail {\n                name: act_name.to_owned(),\n                id: act_id,\n                ts: TokenState::Empty,\n            });")
    t=t.replace("details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));","details.push(Detail {\n                        name: act_name.to_owned(),\n                        id: AccountId::new(self),\n                        ts: TokenState::Empty,\n                    });")
    t=t.replace("x.0 == act_name.as_str()","x.name == act_name.as_str()").replace("matches!(x.2,","matches!(x.ts,").replace("y.1 == x.1","y.id == x.id").replace(".map(|x| x.0.clone())",".map(|x| x.name.clone())")
    t=t.replace("for (act_name, _, ts) in &self.details","for Detail {\n            name: act_name, ts, ..\n        } in &self.details")
    t=t.replace("for (act_name, _, old_ts) in &self.details","for Detail {\n            name: act_name,\n            ts: old_ts,\n            ..\n        } in &self.details")
    t=t.replace(".position(|(n, _, _)| n == &act_name)",".position(|x| x.name == act_name)")
    t=t.replace("self.details[ts_idx].1","self.details[ts_idx].id").replace("self.details[ts_idx].2","self.details[ts_idx].ts")
    t=t.replace("x.0 == act_name)","x.name == act_name)").replace(".map(|x| x.1)",".map(|x| x.id)").replace("x.1 == act_id","x.id == act_id").replace("matches!(&x.2,","matches!(&x.ts,").replace(".map(|x| &x.0)",".map(|x| &x.name)").replace(".map(|x| &x.2)",".map(|x| &x.ts)")
    t=t.replace("} = ts.2","} = ts.ts").replace("ts.1 = new_id","ts.id = new_id").replace("details[i].2","details[i].ts").replace("details[i].1","details[i].id")
    return t
IDX='''        let i = self
            .guard
            .details
            .iter()
            .position(|x| x.1 == act_id)
            .unwrap();
'''
EDITS=[
 ref("detail-struct", whole(S, detail_struct)),
 ref("index-of", reps(S,(IDX,"        let i = self.index_of(act_id);\n"),('''    /// If `act_id` is `Active`, set''','''    /// The index of the details of `act_id`.
    fn index_of(&self, act_id: AccountId) -> usize {
        self.guard
            .details
            .iter()
            .position(|x| x.1 == act_id)
            .expect("invalid account id")
    }

    /// If `act_id` is `Active`, set'''),('''        self.guard
            .details
            .iter()
            .find(|x| x.1 == act_id)
            .map(|x| &x.2)
            .unwrap()''','''        &self.guard.details[self.index_of(act_id)].2'''))),
 ref("lookup-loops", reps(S,('''        self.guard
            .details
            .iter()
            .find(|x| x.0 == act_name)
            .map(|x| x.1)''','''        for (name, id, _) in &self.guard.details {
            if name == act_name {
                return Some(*id);
            }
        }
        None'''),('''        self.guard.details.iter().any(|x| x.1 == act_id)''','''        for (_, id, _) in self.guard.details.iter() {
            if *id == act_id {
                return true;
            }
        }
        false'''))),
 ref("replace-mut", (S,'''        let new_id = AccountId::new(&mut self.guard);
        self.guard.details[i].1 = new_id;
        self.guard.details[i].2 = new_tokenstate;
        new_id''','''        let new_id = AccountId::new(&mut self.guard);
        let (_, id, ts) = &mut self.guard.details[i];
        *ts = new_tokenstate;
        *id = new_id;
        new_id''')),
 ref("update-match", (S,'''            if let Some(old_act) = self.config.accounts.get(act_name) {
                let new_act = &config.accounts[act_name];
                if new_act.secure_eq(old_act) {''','''            let unchanged = match self.config.accounts.get(act_name) {
                Some(old_act) => config.accounts[act_name].secure_eq(old_act),
                None => false,
            };
            if self.config.accounts.contains_key(act_name) {
                if unchanged {''')),
 ref("update-find-map", (S,'''                    details.push(
                        self.details
                            .iter()
                            .find(|x| x.0 == act_name.as_str())
                            .unwrap()
                            .clone(),
                    );''','''                    let (_, old_id, old_ts) = self
                        .details
                        .iter()
                        .find(|(name, _, _)| name == act_name)
                        .unwrap();
                    details.push((act_name.to_owned(), *old_id, old_ts.clone()));''')),
 ref("restore-guard", (S,'''        if d.version != DUMP_VERSION {
            return Err("Unknown dump version".into());
        }
''','''        match d.version {
            DUMP_VERSION => (),
            _ => return Err("Unknown dump version".into()),
        }
'''),(S,'''                    match (old_ts, &new_ts) {
                        (
                            &TokenState::Empty | &TokenState::Pending { .. },
                            &TokenState::Empty | &TokenState::Pending { .. },
                        ) => (),
                        (
                            &TokenState::Empty | &TokenState::Pending { .. },
                            &TokenState::Active { .. },
                        ) => {
                            restore.insert(act_name.to_owned(), new_ts);
                        }
                        (&TokenState::Active { .. }, _) => (),
                    }''','''                    let was_active = matches!(old_ts, TokenState::Active { .. });
                    let is_active = matches!(new_ts, TokenState::Active { .. });
                    if !was_active && is_active {
                        restore.insert(act_name.to_owned(), new_ts);
                    }''')),
 ref("restore-into", (S,"for (act_name, ts) in restore.drain() {","for (act_name, ts) in restore.into_iter() {"),(S,"let mut restore = HashMap::new();","let mut restore = HashMap::with_capacity(self.details.len());")),
 ref("refresh-parse-fn", (R,'''        match (
            parsed["access_token"].as_str(),
            parsed["expires_in"].as_u64(),
            parsed["token_type"].as_str(),
        ) {
            (Some(access_token), Some(expires_in), Some("Bearer")) => {''','''        match parse_token(&parsed) {
            Some((access_token, expires_in)) => {'''),(R,'''pub struct Refresher {''','''/// Extract the access token, and the number of seconds it is valid for, from an OAuth server's
/// response.
fn parse_token(parsed: &Value) -> Option<(&str, u64)> {
    if parsed["token_type"].as_str() != Some("Bearer") {
        return None;
    }
    let access_token = parsed["access_token"].as_str()?;
    let expires_in = parsed["expires_in"].as_u64()?;
    Some((access_token, expires_in))
}

pub struct Refresher {''')),
 ref("refresh-transitory-fn", (R,'''            Err(ref e @ ureq::Error::Transport(ref t))
                if t.kind() == ureq::ErrorKind::ConnectionFailed
                    || t.kind() == ureq::ErrorKind::Dns
                    || t.kind() == ureq::ErrorKind::Io =>
            {''','''            Err(ref e) if is_transitory(e) => {'''),(R,'''pub struct Refresher {''','''/// Might retrying a request that failed with `e` succeed?
fn is_transitory(e: &ureq::Error) -> bool {
    match e {
        ureq::Error::Transport(t) => matches!(
            t.kind(),
            ureq::ErrorKind::ConnectionFailed | ureq::ErrorKind::Dns | ureq::ErrorKind::Io
        ),
        ureq::Error::Status(..) => false,
    }
}

pub struct Refresher {''')),
 ref("refresh-tx-let", (R,'''                let refresh_token = match parsed.get("refresh_token") {
                    None => Some(refresh_token),
                    Some(Value::String(x)) => Some(x.to_owned()),
                    Some(_) => None,
                };
                let now = Instant::now();''','''                let now = Instant::now();
                let refresh_token = if let Some(x) = parsed.get("refresh_token") {
                    x.as_str().map(|x| x.to_owned())
                } else {
                    Some(refresh_token)
                };''')),
 ref("refresh-at-else", (R,'''                let mut expiry = access_token_expiry
                    .checked_sub(act.refresh_before_expiry(ct_lk.config()))
                    .unwrap_or_else(|| cmp::min(Instant::now(), *access_token_expiry));
''','''                let before = act.refresh_before_expiry(ct_lk.config());
                let mut expiry = match access_token_expiry.checked_sub(before) {
                    Some(x) => x,
                    None => cmp::min(Instant::now(), *access_token_expiry),
                };
''')),
 ref("refresh-foreach", (R,'''            for act_id in to_refresh.iter() {
                refresher.sched_refresh(Arc::clone(&pstate), *act_id);
            }''','''            to_refresh
                .into_iter()
                .for_each(|act_id| refresher.sched_refresh(Arc::clone(&pstate), act_id));''')),
 ref("refresh-due-vec", (R,'''            let to_refresh = ct_lk
                .act_ids()
                .filter(
                    |act_id| match refresher.refresh_at(&pstate, &ct_lk, *act_id) {
                        Some(t) => t <= now,
                        None => false,
                    },
                )
                .collect::<HashSet<_>>();''','''            let mut to_refresh = HashSet::new();
            for act_id in ct_lk.act_ids() {
                if refresher
                    .refresh_at(&pstate, &ct_lk, act_id)
                    .is_some_and(|t| t <= now)
                {
                    to_refresh.insert(act_id);
                }
            }''')),
 ref("http-find-host", (H,'''        if let Some(i) = f.as_str().find(':') {
            if f.as_str()[..i].eq_ignore_ascii_case("host") {
                if host.is_some() {
                    // Fields can be repeated, but that doesn't make sense for "host"
                    return Err("Repeated 'host' field in HTTP header".into());
                }
                let j: usize = f[i + ':'.len_utf8()..]
                    .chars()
                    .take_while(|c| *c == ' ' || *c == '\\t')
                    .map(|c| c.len_utf8())
                    .sum();
                host = Some(f[i + ':'.len_utf8() + j..].to_string());
            }
        }''','''        if let Some((name, value)) = f.split_once(':') {
            if name.eq_ignore_ascii_case("host") {
                if host.is_some() {
                    // Fields can be repeated, but that doesn't make sense for "host"
                    return Err("Repeated 'host' field in HTTP header".into());
                }
                host = Some(value.trim_start_matches([' ', '\\t']).to_string());
            }
        }''')),
 ref("http-uri-fn", (H,'''    if expected_uri.scheme() != uri.scheme()
        || expected_uri.host_str() != uri.host_str()
        || expected_uri.port() != uri.port()
    {''','''    if !same_origin(&expected_uri, &uri) {'''),(H,'''/// If a request to an OAuth server has failed then notify''','''/// Do `x` and `y` have the same scheme, host, and port?
fn same_origin(x: &Url, y: &Url) -> bool {
    (x.scheme(), x.host_str(), x.port()) == (y.scheme(), y.host_str(), y.port())
}

/// If a request to an OAuth server has failed then notify''')),
 ref("http-query-fn", reps(H,('''uri.query_pairs().find(|(k, _)| k == "state") {
        Some((_, state)) => state.into_owned(),''','''query_param(&uri, "state") {
        Some(state) => state,'''),('''if let Some((_, reason)) = uri.query_pairs().find(|(k, _)| k == "error") {''','''if let Some(reason) = query_param(&uri, "error") {'''),('''uri.query_pairs().find(|(k, _)| k == "code") {
        Some((_, code)) => code.to_string(),''','''query_param(&uri, "code") {
        Some(code) => code,'''),('''/// If a request to an OAuth server has failed then notify''','''/// The (first) value of the query parameter `name` in `uri`.
fn query_param(uri: &Url, name: &str) -> Option<String> {
    uri.query_pairs()
        .find_map(|(k, v)| (k == name).then(|| v.into_owned()))
}

/// If a request to an OAuth server has failed then notify'''))),
 ref("http-let-else", (H,'''    let body = match body {
        Some(x) => x,
        None => {
            fail(pstate, act_id, &format!("couldn't connect to {token_uri:}"))?;
            return Ok(());
        }
    };''','''    let Some(body) = body else {
        return fail(pstate, act_id, &format!("couldn't connect to {token_uri:}"));
    };''')),
 ref("http-fail-early", (H,'''    let mut ct_lk = pstate.ct_lock();
    if ct_lk.is_act_id_valid(act_id) {
        // It's possible -- though admittedly unlikely -- that another thread has managed to grab
        // an `Active` token so we have to handle the possibility.
        let is_active = matches!(ct_lk.tokenstate(act_id), TokenState::Active { .. });
        let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
        let act_name = ct_lk.account(act_id).name.clone();
        let msg = format!(
            "Authentication for {} failed: {msg:}",
            ct_lk.account(act_id).name
        );
        drop(ct_lk);
        pstate
            .notifier
            .notify_error(&pstate, act_name.clone(), msg)?;
        if is_active {
            pstate
                .eventer
                .token_event(act_name, TokenEvent::Invalidated);
        }
    }
    Ok(())''','''    let (act_name, is_active) = {
        let mut ct_lk = pstate.ct_lock();
        if !ct_lk.is_act_id_valid(act_id) {
            return Ok(());
        }
        let is_active = matches!(ct_lk.tokenstate(act_id), TokenState::Active { .. });
        let act_name = ct_lk.account(act_id).name.clone();
        ct_lk.tokenstate_replace(act_id, TokenState::Empty);
        (act_name, is_active)
    };
    let msg = format!("Authentication for {act_name} failed: {msg:}");
    pstate
        .notifier
        .notify_error(&pstate, act_name.clone(), msg)?;
    if is_active {
        pstate
            .eventer
            .token_event(act_name, TokenEvent::Invalidated);
    }
    Ok(())''')),
 ref("http-accept-helper", reps(H,('''            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {
                if let Err(e) = request(pstate, stream, false) {
                    warn!("{e:}");
                }
            });''','''            let pstate = Arc::clone(&pstate);
            thread::spawn(|| serve(pstate, stream, false));'''),('''                if let Err(e) = request(pstate, stream, true) {
                    warn!("{e:}");
                }
''','''                serve(pstate, stream, true);
'''),('''pub fn http_server(''','''/// Handle one request, logging any errors.
fn serve<T: Read + Write>(pstate: Arc<AuthenticatorState>, stream: T, is_https: bool) {
    match request(pstate, stream, is_https) {
        Ok(()) => (),
        Err(e) => warn!("{e:}"),
    }
}

pub fn http_server('''))),
 ref("https-arc-once", reps(H,("    thread::spawn(move || {\n        for mut stream in","    let server_config = Arc::new(server_config);\n    thread::spawn(move || {\n        for mut stream in"),("Arc::new(server_config.clone())","Arc::clone(&server_config)"),('''            if let Err(e) = conn {
                warn!("{e:}");
                continue;
            }
            let mut conn = conn.unwrap();
''','''            let mut conn = match conn {
                Ok(conn) => conn,
                Err(e) => {
                    warn!("{e:}");
                    continue;
                }
            };
'''))),
 ref("https-conn-in-thread", reps(H,('''            // generate a new TLS connection
            let conn = rustls::ServerConnection::new(Arc::new(server_config.clone()));
            if let Err(e) = conn {
                warn!("{e:}");
                continue;
            }
            let mut conn = conn.unwrap();

            let pstate''','''            let server_config = Arc::new(server_config.clone());
            let pstate'''),('''                // convert TCP stream into TLS stream
''','''                // generate a new TLS connection
                let mut conn = match rustls::ServerConnection::new(server_config) {
                    Ok(x) => x,
                    Err(e) => {
                        warn!("{e:}");
                        return;
                    }
                };
                // convert TCP stream into TLS stream
'''))),
 ref("http-accept-loop", (H,'''        for stream in listener.incoming().flatten() {
            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {''','''        loop {
            let stream = match listener.accept() {
                Ok((stream, _)) => stream,
                Err(_) => continue,
            };
            let pstate = Arc::clone(&pstate);
            thread::spawn(|| {''')),
 ref("not-fold", (N,'''            .filter_map(|act_id| notify_at(pstate, &ct_lk, act_id))
            .min()
            .map(
                |act_min| match Instant::now().checked_add(Duration::from_secs(MAX_WAIT_SECS)) {
                    Some(x) => cmp::min(act_min, x),
                    None => act_min,
                },
            )''','''            .filter_map(|act_id| notify_at(pstate, &ct_lk, act_id))
            .min()
            .map(|act_min| {
                let latest = Instant::now().checked_add(Duration::from_secs(MAX_WAIT_SECS));
                latest.map_or(act_min, |x| cmp::min(act_min, x))
            })''')),
 ref("not-run-helper", reps(N,('''                thread::spawn(move || match env::var("SHELL") {
                    Ok(s) => {
                        match Command::new(s)
                            .env("PIZAUTH_ACCOUNT", act_name.as_str())
                            .env("PIZAUTH_URL", url.as_str())
                            .args(["-c", &cmd])
                            .output()
                        {
                            Ok(output) => {
                                if !output.status.success() {
                                    error!(
                                        "{act_name:}: error when running '{cmd:}': {}",
                                        std::str::from_utf8(&output.stdout)
                                            .unwrap_or("<stderr not representable as UTF-8")
                                    );
                                }
                            }
                            Err(e) => error!("{act_name:}: error when running '{cmd:}': {e:}"),
                        }
                    }
                    Err(e) => error!("{e:}"),
                });''','''                thread::spawn(move || run_cmd(&act_name, &cmd, "PIZAUTH_URL", url.as_str()));'''),('''                thread::spawn(move || match env::var("SHELL") {
                    Ok(s) => {
                        match Command::new(s)
                            .env("PIZAUTH_ACCOUNT", act_name.as_str())
                            .env("PIZAUTH_MSG", msg)
                            .args(["-c", &cmd])
                            .output()
                        {
                            Ok(output) => {
                                if !output.status.success() {
                                    error!(
                                        "{act_name:}: error when running '{cmd:}': {}",
                                        std::str::from_utf8(&output.stdout)
                                            .unwrap_or("<stderr not representable as UTF-8>")
                                    );
                                }
                            }
                            Err(e) => error!("{act_name:}: error when running '{cmd:}': {e:}"),
                        }
                    }
                    Err(e) => error!("{e:}"),
                });''','''                thread::spawn(move || run_cmd(&act_name, &cmd, "PIZAUTH_MSG", &msg));'''),('''/// If `act_id` has a pending token, return the next''','''/// Run `cmd` on behalf of `act_name` with the environment variable `key` set to `val`.
fn run_cmd(act_name: &str, cmd: &str, key: &str, val: &str) {
    let shell = match env::var("SHELL") {
        Ok(s) => s,
        Err(e) => {
            error!("{e:}");
            return;
        }
    };
    let output = Command::new(shell)
        .env("PIZAUTH_ACCOUNT", act_name)
        .env(key, val)
        .args(["-c", cmd])
        .output();
    match output {
        Ok(output) if output.status.success() => (),
        Ok(output) => error!(
            "{act_name:}: error when running '{cmd:}': {}",
            std::str::from_utf8(&output.stdout).unwrap_or("<stderr not representable as UTF-8>")
        ),
        Err(e) => error!("{act_name:}: error when running '{cmd:}': {e:}"),
    }
}

/// If `act_id` has a pending token, return the next'''))),
 ref("not-due-map", (N,'''                    if let Some(t) = last_notification {
                        if let Some(t) = t.checked_add(notify_interval) {
                            if t > now {
                                continue;
                            }
                        }
                    }''','''                    let next = last_notification.and_then(|t| t.checked_add(notify_interval));
                    if matches!(next, Some(t) if t > now) {
                        continue;
                    }''')),
 ref("ev-run-helper", (V,'''                match env::var("SHELL") {
                    Ok(s) => {
                        match Command::new(s)
                            .env("PIZAUTH_ACCOUNT", act_name.as_str())
                            .env("PIZAUTH_EVENT", event.to_string())
                            .args(["-c", &token_event_cmd])
                            .spawn()
                        {
                            Ok(mut child) => match child.wait_timeout(NEW_ACCESS_TOKEN_CMD_TIMEOUT)
                            {
                                Ok(Some(status)) => {
                                    if !status.success() {
                                        error!(
                                            "'{token_event_cmd:}' returned {}",
                                            status
                                                .code()
                                                .map(|x| x.to_string())
                                                .unwrap_or_else(|| "<Unknown exit code".to_string())
                                        );
                                    }
                                }
                                Ok(None) => {
                                    child.kill().ok();
                                    child.wait().ok();
                                    error!("'{token_event_cmd:}' exceeded timeout");
                                }
                                Err(e) => error!("Waiting on '{token_event_cmd:}' failed: {e:}"),
                            },
                            Err(e) => error!("Couldn't execute '{token_event_cmd:}': {e:}"),
                        }
                    }
                    Err(e) => error!("{e:}"),
                }''','''                if let Err(e) = run_event_cmd(&token_event_cmd, &act_name, event) {
                    error!("{e:}");
                }'''),(V,'''impl Eventer {
    pub fn new()''','''/// Run `cmd` for `event` on `act_name`, killing it if it takes too long.
fn run_event_cmd(cmd: &str, act_name: &str, event: TokenEvent) -> Result<(), Box<dyn Error>> {
    let shell = env::var("SHELL")?;
    let mut child = Command::new(shell)
        .env("PIZAUTH_ACCOUNT", act_name)
        .env("PIZAUTH_EVENT", event.to_string())
        .args(["-c", cmd])
        .spawn()
        .map_err(|e| format!("Couldn't execute '{cmd:}': {e:}"))?;
    match child
        .wait_timeout(NEW_ACCESS_TOKEN_CMD_TIMEOUT)
        .map_err(|e| format!("Waiting on '{cmd:}' failed: {e:}"))?
    {
        Some(status) if status.success() => Ok(()),
        Some(status) => Err(format!(
            "'{cmd:}' returned {}",
            status
                .code()
                .map(|x| x.to_string())
                .unwrap_or_else(|| "<Unknown exit code>".to_string())
        )
        .into()),
        None => {
            child.kill().ok();
            child.wait().ok();
            Err(format!("'{cmd:}' exceeded timeout").into())
        }
    }
}

impl Eventer {
    pub fn new()''')),
 ref("us-transact", reps(U,('''pub fn dump(cache_path''','''/// Send `req` to the server and return a stream from which the response can be read.
fn send(cache_path: &Path, req: &[u8]) -> Result<UnixStream, Box<dyn Error>> {
    let mut stream = UnixStream::connect(sock_path(cache_path))
        .map_err(|_| "pizauth authenticator not running or not responding")?;
    stream.write_all(req).map_err(|_| "Socket not writeable")?;
    Ok(stream)
}

/// Send `req` to the server and return its response.
fn transact(cache_path: &Path, req: &[u8]) -> Result<String, Box<dyn Error>> {
    let mut stream = send(cache_path, req)?;
    stream.shutdown(Shutdown::Write)?;
    let mut rtn = String::new();
    stream.read_to_string(&mut rtn)?;
    Ok(rtn)
}

pub fn dump(cache_path'''),('''    let sock_path = sock_path(cache_path);
    let mut stream = UnixStream::connect(sock_path)
        .map_err(|_| "pizauth authenticator not running or not responding")?;
    stream
        .write_all(b"reload:")
        .map_err(|_| "Socket not writeable")?;
    stream.shutdown(Shutdown::Write)?;

    let mut rtn = String::new();
    stream.read_to_string(&mut rtn)?;
''','''    let rtn = transact(cache_path, b"reload:")?;
'''),('''    let sock_path = sock_path(cache_path);
    let mut stream = UnixStream::connect(sock_path)
        .map_err(|_| "pizauth authenticator not running or not responding")?;
    stream
        .write_all(format!("revoke:{account}").as_bytes())
        .map_err(|_| "Socket not writeable")?;
    stream.shutdown(Shutdown::Write)?;

    let mut rtn = String::new();
    stream.read_to_string(&mut rtn)?;
''','''    let rtn = transact(cache_path, format!("revoke:{account}").as_bytes())?;
'''),('''    let sock_path = sock_path(cache_path);
    let mut stream = UnixStream::connect(sock_path)
        .map_err(|_| "pizauth authenticator not running or not responding")?;
    stream
        .write_all(b"shutdown:")
        .map_err(|_| "Socket not writeable")?;
    Ok(())''','''    send(cache_path, b"shutdown:").map(|_| ())'''))),
 ref("us-status-split", (U,'''    match rtn.splitn(2, ':').collect::<Vec<_>>()[..] {
        ["ok", x] => {
            println!("{x:}");
            Ok(())
        }
        ["error", cause] => Err(cause.into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }''','''    match rtn.split_once(':') {
        Some(("ok", x)) => {
            println!("{x:}");
            Ok(())
        }
        Some(("error", cause)) => Err(cause.into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }''')),
 ref("main-init-log", reps(A,('''            stderrlog::new()
                .module(module_path!())
                .verbosity(matches.opt_count("v"))
                .init()
                .unwrap();
''','''            init_stderrlog(&matches);
'''),('''fn cache_path() ->''','''/// Log messages to stderr, at the level specified by the user.
fn init_stderrlog(matches: &getopts::Matches) {
    stderrlog::new()
        .module(module_path!())
        .verbosity(matches.opt_count("v"))
        .init()
        .unwrap();
}

fn cache_path() ->'''))),
 ref("main-exit-err", reps(A,('''{
                error!("{e:}");
                process::exit(1);
            }''','''{
                fail(&*e);
            }'''),('''fn cache_path() ->''','''/// Report `e` and exit.
fn fail(e: &dyn std::error::Error) -> ! {
    error!("{e:}");
    process::exit(1)
}

fn cache_path() ->'''))),
 ref("main-private-fn", reps(A,('''    let md = |p: &PathBuf| {
        if !p.exists() {
            fs::create_dir(p).unwrap_or_else(|e| fatal(&format!("Can't create cache dir: {e}")));
        }
        fs::set_permissions(p, PermissionsExt::from_mode(0o700)).unwrap_or_else(|_| {
            fatal(&format!(
                "Can't set permissions for {} to 0700 (octal)",
                p.to_str()
                    .unwrap_or("<path cannot be represented as UTF-8>")
            ))
        });
    };

    md(&p);
    p.push(PIZAUTH_CACHE_LEAF);
    md(&p);
''','''    make_private_dir(&p);
    p.push(PIZAUTH_CACHE_LEAF);
    make_private_dir(&p);
'''),('''fn cache_path() ->''','''/// Make sure that `p` is a directory that only the current user can access.
fn make_private_dir(p: &PathBuf) {
    if !p.exists() {
        if let Err(e) = fs::create_dir(p) {
            fatal(&format!("Can't create cache dir: {e}"));
        }
    }
    let perms = fs::Permissions::from_mode(0o700);
    if fs::set_permissions(p, perms).is_err() {
        fatal(&format!(
            "Can't set permissions for {} to 0700 (octal)",
            p.to_str()
                .unwrap_or("<path cannot be represented as UTF-8>")
        ));
    }
}

fn cache_path() ->'''))),
 ref("main-parse-fn", reps(A,('''            let matches = opts.parse(&args[2..]).unwrap_or_else(|_| usage());
            if matches.opt_present("h") || !matches.free.is_empty() {
                usage();
            }
''','''            let matches = parse_opts(&opts, &args[2..], 0);
'''),('''fn cache_path() ->''','''/// Parse `args`, which must contain exactly `nfree` free arguments.
fn parse_opts(opts: &Options, args: &[String], nfree: usize) -> getopts::Matches {
    match opts.parse(args) {
        Ok(matches) if !matches.opt_present("h") && matches.free.len() == nfree => matches,
        _ => usage(),
    }
}

fn cache_path() ->'''))),
 ref("cf-time-table", (C,'''        let secs = match t.chars().last().unwrap() {
            'd' => num.checked_mul(86400).ok_or("Number too big")?,
            'h' => num.checked_mul(3600).ok_or("Number too big")?,
            'm' => num.checked_mul(60).ok_or("Number too big")?,
            's' => num,
            _ => unreachable!(),
        };
        Ok(Duration::from_secs(secs))''','''        let unit = match t.chars().last().unwrap() {
            'd' => 24 * 60 * 60,
            'h' => 60 * 60,
            'm' => 60,
            's' => 1,
            _ => unreachable!(),
        };
        let secs = num.checked_mul(unit).ok_or("Number too big")?;
        Ok(Duration::from_secs(secs))''')),
 ref("cf-redirects", (C,'''            if act.redirect_uri_is_https() {
                match https_listen {
                    Some(Some(_)) | None => (),
                    Some(None) => {
                        return Err(format!("Account {act_name} has an 'https' redirect but the HTTPS server is set to 'none'"));
                    }
                }
            } else {
                match http_listen {
                    Some(Some(_)) | None => (),
                    Some(None) => {
                        return Err(format!("Account {act_name} has an 'http' redirect but the HTTP server is set to 'none'"));
                    }
                }
            }''','''            let (listen, lower, upper) = if act.redirect_uri_is_https() {
                (&https_listen, "https", "HTTPS")
            } else {
                (&http_listen, "http", "HTTP")
            };
            if matches!(listen, Some(None)) {
                return Err(format!("Account {act_name} has an '{lower}' redirect but the {upper} server is set to 'none'"));
            }''')),
 ref("mod-expiry-if", (M,'''    refreshed_at
        .checked_add(Duration::from_secs(expires_in))
        .or_else(|| {
            refreshed_at.checked_add(ct_lk.account(act_id).refresh_at_least(ct_lk.config()))
        })
        .ok_or_else(|| "Can't represent expiry".into())''','''    if let Some(x) = refreshed_at.checked_add(Duration::from_secs(expires_in)) {
        return Ok(x);
    }
    let at_least = ct_lk.account(act_id).refresh_at_least(ct_lk.config());
    match refreshed_at.checked_add(at_least) {
        Some(x) => Ok(x),
        None => Err("Can't represent expiry".into()),
    }''')),
 ref("mod-lookup-helper", reps(M,('''                let act_id = match ct_lk.validate_act_name(act_name) {
                    Some(x) => x,
                    None => {
                        drop(ct_lk);
                        stream.write_all(format!("error:No account '{act_name:}'").as_bytes())?;
                        return Ok(());
                    }
                };
''','''                let Some(act_id) = ct_lk.validate_act_name(act_name) else {
                    drop(ct_lk);
                    return no_account(stream, act_name);
                };
'''),('''fn request(pstate''','''/// Tell a client that there's no account `act_name`.
fn no_account(mut stream: UnixStream, act_name: &str) -> Result<(), Box<dyn Error>> {
    stream.write_all(format!("error:No account '{act_name:}'").as_bytes())?;
    Ok(())
}

fn request(pstate'''))),
 ref("mod-reload-and-then", (M,'''            match Config::from_path(&pstate.conf_path) {
                Ok(new_conf) => {
                    pstate.update_conf(new_conf);
                    stream.write_all(b"ok:")?
                }
                Err(e) => stream.write_all(format!("error:{e:}").as_bytes())?,
            }
            return Ok(());''','''            let response = Config::from_path(&pstate.conf_path)
                .map(|new_conf| {
                    pstate.update_conf(new_conf);
                    "ok:".to_owned()
                })
                .unwrap_or_else(|e| format!("error:{e:}"));
            stream.write_all(response.as_bytes())?;
            return Ok(());''')),
 ref("mod-expired-fn", (M,'''                        let response = if access_token_expiry > &Instant::now() {
                            format!("access_token:{access_token:}")
                        } else if *ongoing_refresh {
                            "error:Access token has expired. Refreshing is in progress but has not yet succeeded"
                                .into()
                        } else {
                            pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);
                            "error:Access token has expired. Refreshing initiated".into()
                        };''','''                        let expired = *access_token_expiry <= Instant::now();
                        let response = match (expired, *ongoing_refresh) {
                            (false, _) => format!("access_token:{access_token:}"),
                            (true, true) => {
                                "error:Access token has expired. Refreshing is in progress but has not yet succeeded"
                                    .to_string()
                            }
                            (true, false) => {
                                pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);
                                "error:Access token has expired. Refreshing initiated".to_string()
                            }
                        };''')),
 ref("req-verifier-fn", reps(Q,('''    let mut state = [0u8; STATE_LEN];
    rng().fill_bytes(&mut state);
    let state = URL_SAFE_NO_PAD.encode(state);

    let mut code_verifier = [0u8; CODE_VERIFIER_LEN];
    rng().fill_bytes(&mut code_verifier);
    let code_verifier = URL_SAFE_NO_PAD.encode(code_verifier);
    let mut hasher = Sha256::new();
    hasher.update(&code_verifier);
    let code_challenge = URL_SAFE_NO_PAD.encode(hasher.finalize());
''','''    let state = random_string::<STATE_LEN>();
    let code_verifier = random_string::<CODE_VERIFIER_LEN>();
    let code_challenge = URL_SAFE_NO_PAD.encode(Sha256::digest(code_verifier.as_bytes()));
'''),('''/// Request a new token''','''/// A random string of `N` bytes (before encoding).
fn random_string<const N: usize>() -> String {
    let mut buf = [0u8; N];
    rng().fill_bytes(&mut buf);
    URL_SAFE_NO_PAD.encode(buf)
}

/// Request a new token''')) if '/// Request a new token' in open(os.path.join(REPO,Q)).read() else (Q,'''    let mut state = [0u8; STATE_LEN];
    rng().fill_bytes(&mut state);
    let state = URL_SAFE_NO_PAD.encode(state);
''','''    let state = {
        let mut buf = [0u8; STATE_LEN];
        rng().fill_bytes(&mut buf);
        URL_SAFE_NO_PAD.encode(buf)
    };
''')),
]

R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"; A="src/main.rs"; U="src/user_sender.rs"
SRC=lambda f: open("/repo/"+f).read()
def ref(n, *ed): return dict(name="m12-ref-"+n, kind="ref", ids=[], edits=list(ed))
def mut(n, ids, *ed): return dict(name="m12-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
DUP='''        Some(_) => Err(error_at_span(
            lexer,
            span,
            &format!("Mustn't specify '{name:}' more than once"),
        )),
    }
}
'''
LX="    lexer: &LRNonStreamingLexer<DefaultLexerTypes<StorageT>>,\n    name: &str,\n    span: Span,\n"
STR='''    v: Option<T>,
) -> Result<String, String> {
    match v {
        None => Ok(unescape_str(lexer.span_str(span))),
'''+DUP
URI='''    match v {
        None => {
            let s = unescape_str(lexer.span_str(span));
            match Url::parse(&s) {
                Ok(x) => {
                    if x.scheme() == "http" || x.scheme() == "https" {
                        Ok(s)
                    } else {
                        Err(error_at_span(lexer, span, "not a valid HTTP or HTTPS URI"))
                    }
                }
                Err(e) => Err(error_at_span(lexer, span, &format!("Invalid URI: {e:}"))),
            }
        }
'''+DUP
EQ='''        self.name == other.name
            && self.auth_uri == other.auth_uri
            && self.auth_uri_fields == other.auth_uri_fields
            && self.client_id == other.client_id
            && self.client_secret == other.client_secret
            && self.redirect_uri == other.redirect_uri
            && self.scopes == other.scopes
            && self.token_uri == other.token_uri
'''
LOOP='''    let mut i = '"'.len_utf8();
    while i < us.len()'''
src=SRC(C); UN=src[src.index("    // We iterate over all characters except"):src.index("    s\n}\n\n/// Return an error message pinpointing")]
CHK=src[src.index("        for (act_name, act) in &accounts {\n            if act.redirect_uri_is_https"):src.index("        Ok(Config {")]
ACC=src[src.index("                            let act_name = unescape_str(lexer.span_str(name));"):src.index("                        config_ast::TopLevel::AuthErrorCmd")]
RED=src[src.index("        let mut url = Url::parse(&self.redirect_uri)?;"):src.index("    pub fn refresh_at_least(&self")]
TIME=src[src.index("        let last_char_idx = t\n"):src.index("        Ok(Duration::from_secs(secs))")]
ev=SRC(V); POP=ev[ev.index("            loop {\n                let (act_name"):ev.index("                match env::var(\"SHELL\")")]
WAIT=ev[ev.index("            let mut eventer_lk"):ev.index("            loop {\n                let (act_name")]
us=SRC(U)
def usender():
    s=us
    pre='''    let sock_path = sock_path(cache_path);
    let mut stream = UnixStream::connect(sock_path)
        .map_err(|_| "pizauth authenticator not running or not responding")?;
'''
    ed=[]
    out=s
    out=out.replace(pre,'    let mut stream = connect(cache_path)?;\n')
    i=out.index("pub fn dump(")
    out=out[:i]+'''/// Connect to the server.
fn connect(cache_path: &Path) -> Result<UnixStream, Box<dyn Error>> {
    match UnixStream::connect(sock_path(cache_path)) {
        Ok(x) => Ok(x),
        Err(_) => Err("pizauth authenticator not running or not responding".into()),
    }
}

'''+out[i:]
    return out
def uanswer():
    out=us
    a='''    let mut rtn = String::new();
    stream.read_to_string(&mut rtn)?;
    match rtn.splitn(2, ':').collect::<Vec<_>>()[..] {
'''
    out=out.replace(a,'''    let rtn = answer(&mut stream)?;
    match rtn.split_once(':') {
''')
    import re
    i=out.index("pub fn refresh(")
    t=re.sub(r'\[("[a-z_]+"), (""|[a-z]+)\] =>',r'Some((\1, \2)) =>',out[i:])
    t=t.replace("    stream.shutdown(Shutdown::Write)?;\n\n    let rtn","    let rtn")
    out=out[:i]+'''/// Tell the server that the request is complete and wait for its answer.
fn answer(stream: &mut UnixStream) -> Result<String, Box<dyn Error>> {
    stream.shutdown(Shutdown::Write)?;
    let mut rtn = String::new();
    stream.read_to_string(&mut rtn)?;
    Ok(rtn)
}

'''+t
    return out
EDITS=[
ref("c-str-via-check",(C,LX+STR,LX+'''    v: Option<T>,
) -> Result<String, String> {
    check_not_assigned(lexer, name, span, v)?;
    Ok(unescape_str(lexer.span_str(span)))
}
''')),
ref("c-uri-early",(C,URI,'''    if v.is_some() {
        return Err(error_at_span(
            lexer,
            span,
            &format!("Mustn't specify '{name:}' more than once"),
        ));
    }
    let s = unescape_str(lexer.span_str(span));
    let x = Url::parse(&s)
        .map_err(|e| error_at_span(lexer, span, &format!("Invalid URI: {e:}")))?;
    if !matches!(x.scheme(), "http" | "https") {
        return Err(error_at_span(lexer, span, "not a valid HTTP or HTTPS URI"));
    }
    Ok(s)
}
''')),
ref("c-uri-str",(C,URI,'''    let s = check_not_assigned_str(lexer, name, span, v)?;
    let x = match Url::parse(&s) {
        Ok(x) => x,
        Err(e) => return Err(error_at_span(lexer, span, &format!("Invalid URI: {e:}"))),
    };
    match x.scheme() {
        "http" | "https" => Ok(s),
        _ => Err(error_at_span(lexer, span, "not a valid HTTP or HTTPS URI")),
    }
}
''')),
ref("c-eq-tuple",(C,EQ,'''        fn key(x: &Account) -> impl PartialEq + '_ {
            (
                (&x.name, &x.auth_uri, &x.auth_uri_fields, &x.client_id),
                (&x.client_secret, &x.redirect_uri, &x.scopes, &x.token_uri),
            )
        }
        key(self) == key(other)
''')),
ref("c-eq-ifs",(C,EQ,'''        if self.name != other.name || self.client_id != other.client_id {
            return false;
        }
        if self.auth_uri != other.auth_uri || self.token_uri != other.token_uri {
            return false;
        }
        let same_fields = self.auth_uri_fields == other.auth_uri_fields;
        let same_scopes = self.scopes == other.scopes;
        same_fields
            && same_scopes
            && self.client_secret == other.client_secret
            && self.redirect_uri == other.redirect_uri
''')),
ref("c-eq-dump",(C,EQ,'''        self.name == other.name && self.secure_restorable(&other.dump())
''')),
ref("c-unescape-iter",(C,UN,'''    // We iterate over all characters except the opening and closing quote characters.
    let mut cs = us[1..us.len() - 1].chars();
    while let Some(c) = cs.next() {
        if c == '\\\\' {
            if let Some(c2) = cs.next() {
                s.push(c2);
            }
        } else {
            s.push(c);
        }
    }
''')),
ref("c-unescape-flag",(C,UN,'''    // We iterate over all characters except the opening and closing quote characters.
    let mut escaped = false;
    for c in us[1..us.len() - 1].chars() {
        if c == '\\\\' && !escaped {
            escaped = true;
        } else {
            s.push(c);
            escaped = false;
        }
    }
''')),
ref("c-check-find",(C,CHK,'''        let no_http = matches!(http_listen, Some(None));
        let no_https = matches!(https_listen, Some(None));
        for (act_name, act) in accounts.iter() {
            let https = act.redirect_uri_is_https();
            if https && no_https {
                return Err(format!("Account {act_name} has an 'https' redirect but the HTTPS server is set to 'none'"));
            }
            if !https && no_http {
                return Err(format!("Account {act_name} has an 'http' redirect but the HTTP server is set to 'none'"));
            }
        }

''')),
ref("c-check-fn",(C,CHK,'''        for (act_name, act) in &accounts {
            check_redirect(act_name, act, &http_listen, &https_listen)?;
        }

'''),(C,"fn check_not_assigned<T>(",'''/// Can the redirect URI of `act` be served?
fn check_redirect(
    act_name: &str,
    act: &Account,
    http_listen: &Option<Option<String>>,
    https_listen: &Option<Option<String>>,
) -> Result<(), String> {
    let (listen, scheme, server) = if act.redirect_uri_is_https() {
        (https_listen, "https", "HTTPS")
    } else {
        (http_listen, "http", "HTTP")
    };
    if let Some(None) = listen {
        return Err(format!("Account {act_name} has an '{scheme}' redirect but the {server} server is set to 'none'"));
    }
    Ok(())
}

fn check_not_assigned<T>(''')),
ref("c-acc-insert",(C,ACC,'''                            let act_name = unescape_str(lexer.span_str(name));
                            let act = Account::from_fields(
                                act_name.clone(),
                                &lexer,
                                overall_span,
                                fields,
                            )?;
                            if accounts.insert(act_name.clone(), Arc::new(act)).is_some() {
                                return Err(error_at_span(
                                    &lexer,
                                    name,
                                    &format!(
                                        "Mustn't specify account '{act_name:}' more than once"
                                    ),
                                ));
                            }
                        }
''')),
ref("c-acc-entry",(C,ACC,'''                            let act_name = unescape_str(lexer.span_str(name));
                            match accounts.entry(act_name.clone()) {
                                std::collections::hash_map::Entry::Occupied(_) => {
                                    return Err(error_at_span(
                                        &lexer,
                                        name,
                                        &format!(
                                            "Mustn't specify account '{act_name:}' more than once"
                                        ),
                                    ));
                                }
                                std::collections::hash_map::Entry::Vacant(e) => {
                                    e.insert(Arc::new(Account::from_fields(
                                        act_name,
                                        &lexer,
                                        overall_span,
                                        fields,
                                    )?));
                                }
                            }
                        }
''')),
ref("c-redirect-match",(C,RED,'''        let mut url = Url::parse(&self.redirect_uri)?;
        match (url.scheme() == "https", https_port) {
            (true, Some(_)) => url
                .set_port(https_port)
                .map_err(|_| "Cannot set https port")?,
            _ => url.set_port(http_port).map_err(|_| "Cannot set http port")?,
        }
        Ok(url)
    }

''')),
ref("c-redirect-let",(C,RED,'''        let mut url = Url::parse(&self.redirect_uri)?;
        let (port, err) = if https_port.is_some() && url.scheme() == "https" {
            (https_port, "Cannot set https port")
        } else {
            (http_port, "Cannot set http port")
        };
        if url.set_port(port).is_err() {
            return Err(err.into());
        }
        Ok(url)
    }

''')),
ref("c-refresh-match",(C,'''        self.refresh_at_least
            .or(config.refresh_at_least)
            .unwrap_or(REFRESH_AT_LEAST_DEFAULT)
''','''        match (self.refresh_at_least, config.refresh_at_least) {
            (Some(x), _) | (None, Some(x)) => x,
            (None, None) => REFRESH_AT_LEAST_DEFAULT,
        }
'''),(C,'''        self.refresh_retry
            .or(config.refresh_retry)
            .unwrap_or(REFRESH_RETRY_DEFAULT)
''','''        setting(self.refresh_retry, config.refresh_retry, REFRESH_RETRY_DEFAULT)
'''),(C,"fn check_not_assigned<T>(",'''/// An account's own setting, or the one for all accounts, or the default.
fn setting(act: Option<Duration>, all: Option<Duration>, default: Duration) -> Duration {
    if let Some(x) = act {
        return x;
    }
    all.unwrap_or(default)
}

fn check_not_assigned<T>(''')),
ref("c-time-split",(C,TIME,'''        let (digits, unit) = t.split_at(t.len() - 1);
        let num = digits.parse::<u64>()?;
        let mul = match unit {
            "d" => 86400,
            "h" => 3600,
            "m" => 60,
            "s" => 1,
            _ => unreachable!(),
        };
        let secs = num.checked_mul(mul).ok_or("Number too big")?;
''')),
ref("c-time-helper",(C,'''                        config_ast::TopLevel::RefreshRetry(span) => {
                            refresh_retry = Some(time_str_to_duration(check_not_assigned_time(
                                &lexer,
                                "refresh_retry",
                                span,
                                refresh_retry,
                            )?)?)
''','''                        config_ast::TopLevel::RefreshRetry(span) => {
                            refresh_retry =
                                Some(duration(&lexer, "refresh_retry", span, refresh_retry)?)
'''),(C,'''                    refresh_before_expiry = Some(time_str_to_duration(check_not_assigned_time(
                        lexer,
                        "refresh_before_expiry",
                        span,
                        refresh_before_expiry,
                    )?)?)
''','''                    let d = duration(lexer, "refresh_before_expiry", span, refresh_before_expiry)?;
                    refresh_before_expiry = Some(d)
'''),(C,"fn check_not_assigned<T>(",'''/// The duration at `span`, which must be the only one called `name`.
fn duration<T>(
'''+LX+'''    v: Option<T>,
) -> Result<Duration, String> {
    let t = check_not_assigned_time(lexer, name, span, v)?;
    time_str_to_duration(t)
}

fn check_not_assigned<T>(''')),
ref("c-path-maperr",(C,'''        let input = match read_to_string(conf_path) {
            Ok(s) => s,
            Err(e) => return Err(format!("Can't read {:?}: {}", conf_path, e)),
        };
        Config::from_str(&input)
''','''        read_to_string(conf_path)
            .map_err(|e| format!("Can't read {:?}: {}", conf_path, e))
            .and_then(|input| Config::from_str(&input))
''')),
ref("c-opts-let",(C,'''        match astopt {
            Some(Ok(opts)) => {
                for opt in opts {
                    match opt {''','''        let opts = match astopt {
            Some(Ok(opts)) => opts,
            _ => unreachable!(),
        };
        {
            {
                for opt in opts {
                    match opt {'''),(C,'''            _ => unreachable!(),
        }

        if let (&Some(None)''','''        }

        if let (&Some(None)''')),
ref("v-while-let",(V,POP,'''            loop {
                let next = self.event_queue.lock().unwrap().pop_front();
                let Some((act_name, event)) = next else {
                    break;
                };
                let cmd = pstate.ct_lock().config().token_event_cmd.clone();
                let Some(token_event_cmd) = cmd else {
                    break;
                };
''')),
ref("v-wait-while",(V,WAIT,'''            {
                let mut eventer_lk = self
                    .condvar
                    .wait_while(self.pred.lock().unwrap(), |woken| !*woken)
                    .unwrap();
                *eventer_lk = false;
            }

''')),
ref("u-connect-fn",(U,us,usender())),
ref("u-answer-fn",(U,us,uanswer())),
ref("q-entropy",(Q,'''    let mut state = [0u8; STATE_LEN];
    rng().fill_bytes(&mut state);
    let state = URL_SAFE_NO_PAD.encode(state);

    let mut code_verifier = [0u8; CODE_VERIFIER_LEN];
    rng().fill_bytes(&mut code_verifier);
    let code_verifier = URL_SAFE_NO_PAD.encode(code_verifier);
    let mut hasher = Sha256::new();
    hasher.update(&code_verifier);
    let code_challenge = URL_SAFE_NO_PAD.encode(hasher.finalize());

    let scopes_join''','''    let state = random(&mut [0u8; STATE_LEN]);
    let code_verifier = random(&mut [0u8; CODE_VERIFIER_LEN]);
    let code_challenge = URL_SAFE_NO_PAD.encode(Sha256::digest(code_verifier.as_bytes()));

    let scopes_join'''),(Q,"/// Request a new token","/// Fill `buf` with random bytes and encode them.\nfn random(buf: &mut [u8]) -> String {\n    rng().fill_bytes(buf);\n    URL_SAFE_NO_PAD.encode(buf)\n}\n\n/// Request a new token")),
ref("q-pairs-mut",(Q,'''    for (k, v) in &act.auth_uri_fields {
        params.push((k.as_str(), v.as_str()));
    }
    let url = Url::parse_with_params(ct_lk.account(act_id).auth_uri.as_str(), &params)?;
''','''    params.extend(act.auth_uri_fields.iter().map(|(k, v)| (k.as_str(), v.as_str())));
    let mut url = Url::parse(act.auth_uri.as_str())?;
    url.query_pairs_mut().extend_pairs(&params);
''')),
]
EDITS=[e for e in EDITS if all(a for _,a,_ in e["edits"])]
def combo(n, names):
    by={e["name"]:e for e in EDITS}
    return dict(name="m12-combo-"+n, kind="ref", ids=[], edits=[x for k in names.split() for x in by["m12-ref-"+k]["edits"]])
EDITS+=[
 combo("a","c-str-via-check c-uri-early c-eq-tuple c-unescape-iter c-check-find c-acc-insert c-redirect-match c-refresh-match c-time-split c-path-maperr v-while-let u-connect-fn q-entropy"),
 combo("b","c-uri-str c-eq-ifs c-unescape-flag c-check-fn c-acc-entry c-redirect-let c-time-helper c-opts-let v-wait-while u-answer-fn q-pairs-mut"),
 combo("c","c-eq-dump c-uri-early c-unescape-flag"),
]

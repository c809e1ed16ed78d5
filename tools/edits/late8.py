R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"; A="src/main.rs"; U="src/user_sender.rs"
import os
REPO=os.environ.get("PZ_REPO","/repo")
def mut(n, ids, *ed): return dict(name="m8-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
def ref(n, *ed): return dict(name="m8-ref-"+n, kind="ref", ids=[], edits=list(ed))
def cut(f, a, b):
    """The text of a file from a to (not including) b."""
    s = open(os.path.join(REPO, f)).read()
    i = s.find(a)
    j = s.find(b, i + len(a))
    return s[i:j] if i >= 0 and j >= 0 else "\0missing"
def dedent(t, n): return "\n".join(l[n:] if l.startswith(" " * n) else l for l in t.split("\n"))

# refresher: the thread's body as a method with early returns
SCHED=cut(R,"    pub fn sched_refresh(","    fn run_not_transient_error_if(")
SCHED2='''    pub fn sched_refresh(self: &Arc<Self>, pstate: Arc<AuthenticatorState>, act_id: AccountId) {
        let refresher = Arc::clone(self);
        thread::spawn(move || refresher.refresh_thread(&pstate, act_id));
    }

    fn refresh_thread(&self, pstate: &AuthenticatorState, act_id: AccountId) {
        let mut ct_lk = pstate.ct_lock();
        if !ct_lk.is_act_id_valid(act_id) {
            return;
        }
        let mut new_ts = ct_lk.tokenstate(act_id).clone();
        match new_ts {
            TokenState::Active {
                ref mut ongoing_refresh,
                ..
            } if !*ongoing_refresh => *ongoing_refresh = true,
            _ => return,
        }
        let act_id = ct_lk.tokenstate_replace(act_id, new_ts);
        let act_name = ct_lk.account(act_id).name.clone();
        let event = match self.inner_refresh(pstate, ct_lk, act_id) {
            RefreshKind::AccountOrTokenStateChanged => return,
            RefreshKind::NoRefreshToken => TokenEvent::Invalidated,
            RefreshKind::PermanentError(msg) => {
                info!("Permanent refresh error for {act_name}: {msg}");
                TokenEvent::Invalidated
            }
            RefreshKind::Refreshed => {
                self.notify_changes();
                TokenEvent::Refresh
            }
            RefreshKind::TransitoryError(act_id, msg) => {
                self.transitory(pstate, act_id, act_name, msg);
                // If the main refresher thread noticed we were running it might have given up,
                // so give it a chance to recalculate when it should next wake up.
                self.notify_changes();
                return;
            }
        };
        pstate.eventer.token_event(act_name, event);
    }

    fn transitory(&self, pstate: &AuthenticatorState, act_id: AccountId, act_name: String, msg: String) {
        let mut ct_lk = pstate.ct_lock();
        if !ct_lk.is_act_id_valid(act_id) {
            return;
        }
        let mut new_ts = ct_lk.tokenstate(act_id).clone();
        let fails = match new_ts {
            TokenState::Active {
                ref mut last_refresh_attempt,
                ref mut consecutive_refresh_fails,
                ..
            } => {
                *last_refresh_attempt = Some(Instant::now());
                *consecutive_refresh_fails += 1;
                *consecutive_refresh_fails
            }
            _ => unreachable!(),
        };
        let act_id = ct_lk.tokenstate_replace(act_id, new_ts);
        let cmd = if fails % TRANSIENT_ERROR_RETRIES == 0 {
            ct_lk.config().transient_error_if_cmd.clone()
        } else {
            None
        };
        let cmd = match cmd {
            Some(x) => x,
            None => {
                ct_lk.tokenstate_set_ongoing_refresh(act_id, false);
                drop(ct_lk);
                info!("Transitory refresh error for {act_name} : {msg}");
                return;
            }
        };
        drop(ct_lk);
        let outcome = self.run_not_transient_error_if(cmd, &act_name);
        let mut ct_lk = pstate.ct_lock();
        if !ct_lk.is_act_id_valid(act_id) {
            return;
        }
        if let Err(e) = outcome {
            ct_lk.tokenstate_replace(act_id, TokenState::Empty);
            drop(ct_lk);
            info!("Permanent refresh error for {act_name} : {e}");
            pstate
                .eventer
                .token_event(act_name, TokenEvent::Invalidated);
        } else {
            ct_lk.tokenstate_set_ongoing_refresh(act_id, false);
        }
    }

'''
# refresher: the exchange with the server as a function returning a Result of its own
SEND=cut(R,"        let body = match ureq::AgentBuilder::new()","        let parsed = match serde_json::from_str::<Value>(&body) {")
SEND2='''        let body = match post(token_uri.as_str(), &pairs) {
            Ok(s) => s,
            Err((true, msg)) => return RefreshKind::TransitoryError(act_id, msg),
            Err((false, msg)) => {
                let mut ct_lk = pstate.ct_lock();
                if !ct_lk.is_act_id_valid(act_id) {
                    return RefreshKind::AccountOrTokenStateChanged;
                }
                ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                return RefreshKind::PermanentError(msg);
            }
        };

'''
POST='''/// Post `pairs` to `uri`, returning the body, or whether the error is transitory and a message.
fn post(uri: &str, pairs: &[(&str, &str)]) -> Result<String, (bool, String)> {
    let agent = ureq::AgentBuilder::new().timeout(UREQ_TIMEOUT).build();
    match agent.post(uri).send_form(pairs) {
        Ok(response) => response.into_string().map_err(|e| (true, e.to_string())),
        Err(ureq::Error::Status(code, response)) => Err((
            false,
            match response.into_string() {
                Ok(r) => format!("{code:}: {r:}"),
                Err(_) => format!("{code:}"),
            },
        )),
        Err(e) => {
            let transitory = match &e {
                ureq::Error::Transport(t) => matches!(
                    t.kind(),
                    ureq::ErrorKind::ConnectionFailed
                        | ureq::ErrorKind::Dns
                        | ureq::ErrorKind::Io
                ),
                _ => false,
            };
            Err((transitory, e.to_string()))
        }
    }
}

pub struct Refresher {'''
# refresher: the due time in two functions
RA=cut(R,"                if let Some(lra) = last_refresh_attempt {","            }\n            _ => None,\n        }\n    }\n\n    fn next_wakeup")
RA2='''                let conf = ct_lk.config();
                match last_refresh_attempt {
                    // The token expired, or the user tried to refresh it and that failed.
                    Some(lra) => lra.checked_add(act.refresh_retry(conf)),
                    None => {
                        let before = act.refresh_before_expiry(conf);
                        let by_expiry = match access_token_expiry.checked_sub(before) {
                            Some(x) => x,
                            None => cmp::min(Instant::now(), *access_token_expiry),
                        };
                        let at_least = act.refresh_at_least(conf);
                        match access_token_obtained.checked_add(at_least) {
                            Some(by_age) if by_age < by_expiry => Some(by_age),
                            _ => Some(by_expiry),
                        }
                    }
                }
'''
# refresher: main loop in functions
LOOP=cut(R,"        thread::spawn(move || loop {\n            let next_wakeup","        Ok(())\n    }\n}\n")
LOOP2='''        thread::spawn(move || loop {
            refresher.wait_for_change_or(refresher.next_wakeup(&pstate));
            for act_id in refresher.due(&pstate) {
                refresher.sched_refresh(Arc::clone(&pstate), act_id);
            }
        });
'''
LOOPF='''    /// Wait until a change is notified or, if it is not `None`, the time `t` has come.
    fn wait_for_change_or(&self, until: Option<Instant>) {
        let mut lk = self.pred.lock().unwrap();
        loop {
            if *lk {
                break;
            }
            lk = if let Some(t) = until {
                let now = Instant::now();
                if t < now {
                    break;
                }
                self.condvar.wait_timeout(lk, t - now).unwrap().0
            } else {
                self.condvar.wait(lk).unwrap()
            };
        }
        *lk = false;
    }

    /// The accounts whose token should be refreshed now.
    fn due(&self, pstate: &AuthenticatorState) -> Vec<AccountId> {
        let ct_lk = pstate.ct_lock();
        let now = Instant::now();
        let mut ids = Vec::new();
        for act_id in ct_lk.act_ids() {
            if let Some(t) = self.refresh_at(pstate, &ct_lk, act_id) {
                if t <= now {
                    ids.push(act_id);
                }
            }
        }
        ids
    }

    /// Start the refresher thread.
    pub fn refresher('''
# http: storing the token in a function of its own
STORE=cut(H,"    match (\n        parsed[\"token_type\"].as_str(),","/// If a request to an OAuth server has failed then")
STORE2='''    let (expires_in, access_token) = match (
        parsed["token_type"].as_str(),
        parsed["expires_in"].as_u64(),
        parsed["access_token"].as_str(),
    ) {
        (Some("Bearer"), Some(x), Some(y)) => (x, y),
        _ => {
            drop(ct_lk);
            return fail(pstate, act_id, "invalid response received");
        }
    };
    let now = Instant::now();
    let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {
        Ok(x) => x,
        Err(e) => {
            drop(ct_lk);
            return fail(pstate, act_id, &e.to_string());
        }
    };
    let refresh_token = parsed["refresh_token"].as_str().map(str::to_owned);
    let act_id = ct_lk.tokenstate_replace(
        act_id,
        TokenState::Active {
            access_token: access_token.to_owned(),
            access_token_obtained: now,
            access_token_expiry: expiry,
            ongoing_refresh: false,
            consecutive_refresh_fails: 0,
            last_refresh_attempt: None,
            refresh_token,
        },
    );
    let act_name = ct_lk.account(act_id).name.clone();
    drop(ct_lk);
    pstate.eventer.token_event(act_name, TokenEvent::New);
    pstate.refresher.notify_changes();
    Ok(())
}

'''
# http: the body of the reply by a function
EX=cut(H,"    let mut body = None;\n    for _ in 0..RETRY_POST {","    let parsed = match serde_json::from_str::<Value>(&body) {")
EX2='''    let body = match exchange(token_uri.as_str(), &pairs) {
        Ok(x) => x,
        Err(msg) => return fail(pstate, act_id, &msg),
    };

'''
EXF='''/// Exchange a code for a token, returning the body of the response.
fn exchange(token_uri: &str, pairs: &[(&str, &str)]) -> Result<String, String> {
    let mut tries = 0;
    while tries < RETRY_POST {
        let req = ureq::AgentBuilder::new()
            .timeout(UREQ_TIMEOUT)
            .build()
            .post(token_uri);
        match req.send_form(pairs) {
            Ok(response) => return response.into_string().map_err(|e| e.to_string()),
            Err(ureq::Error::Status(code, response)) => {
                return Err(response
                    .into_string()
                    .map_or_else(|_| code.to_string(), |r| format!("{code:}: {r:}")))
            }
            Err(_) => tries += 1, // Temporary network error or the like
        }
        thread::sleep(Duration::from_secs(RETRY_DELAY));
    }
    Err(format!("couldn't connect to {token_uri:}"))
}

/// If a request to an OAuth server has failed then'''
# http: what the request is about, in a function that works on the guard
CODE=cut(H,"    // Fish out the code query.","    let code_verifier = match ct_lk")
CODE2='''    let mut code = None;
    for (k, v) in uri.query_pairs() {
        if k == "code" {
            code = Some(v.into_owned());
            break;
        }
    }
    let Some(code) = code else {
        drop(ct_lk);
        http_400(stream);
        return Ok(());
    };

'''
EDITS=[
ref("r-thread-methods",(R,SCHED,SCHED2)),
ref("r-post-fn",(R,SEND,SEND2),(R,"pub struct Refresher {",POST)),
ref("r-due-in-two",(R,RA,RA2)),
ref("r-loop-fns",(R,LOOP,LOOP2),(R,"    /// Start the refresher thread.\n    pub fn refresher(",LOOPF)),
ref("r-all",(R,SCHED,SCHED2),(R,SEND,SEND2),(R,"pub struct Refresher {",POST),(R,RA,RA2),(R,LOOP,LOOP2),(R,"    /// Start the refresher thread.\n    pub fn refresher(",LOOPF)),
ref("h-store-flat",(H,STORE,STORE2)),
ref("h-exchange-fn",(H,EX,EX2),(H,"/// If a request to an OAuth server has failed then",EXF)),
ref("h-code-loop",(H,CODE,CODE2)),
ref("h-all",(H,STORE,STORE2),(H,EX,EX2),(H,"/// If a request to an OAuth server has failed then",EXF),(H,CODE,CODE2)),
# muts on the refactored code: the checks must still see what is wrong
mut("r-thread-no-flag","C12 C33",(R,SCHED,SCHED2.replace("} if !*ongoing_refresh => *ongoing_refresh = true,","} if !*ongoing_refresh => (),"))),
mut("r-thread-no-clear","C12",(R,SCHED,SCHED2.replace("        if let Err(e) = outcome {","        if outcome.is_ok() {\n            return;\n        }\n        if let Err(e) = outcome {"))),
mut("r-post-transitory","C13",(R,SEND,SEND2),(R,"pub struct Refresher {",POST.replace("                        | ureq::ErrorKind::Dns\n",""))),
mut("r-due-max","C26",(R,RA,RA2.replace("if by_age < by_expiry","if by_age > by_expiry"))),
mut("r-loop-no-reset","C14",(R,LOOP,LOOP2),(R,"    /// Start the refresher thread.\n    pub fn refresher(",LOOPF.replace("            if *lk {\n                break;\n            }\n            lk = if","            lk = if"))),
mut("h-store-stale","C03",(H,STORE,STORE2.replace("    let act_id = ct_lk.tokenstate_replace(","    drop(ct_lk);\n    let mut ct_lk = pstate.ct_lock();\n    let act_id = ct_lk.tokenstate_replace("))),
mut("h-exchange-status-retry","C44",(H,EX,EX2),(H,"/// If a request to an OAuth server has failed then",EXF.replace("Err(ureq::Error::Status(code, response)) => {\n                return Err(","Err(ureq::Error::Status(code, response)) if code < 500 => {\n                return Err("))),
]

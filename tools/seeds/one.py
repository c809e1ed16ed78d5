C, S, H, R, M = "src/config.rs", "src/server/state.rs", "src/server/http_server.rs", "src/server/refresher.rs", "src/server/mod.rs"
SEEDS = [
 dict(id="scope-added", property="C01", edits=[(C, "            && self.scopes == other.scopes\n            && self.token_uri == other.token_uri", "            && other.scopes.iter().all(|x| self.scopes.contains(x))\n            && self.token_uri == other.token_uri")],
      needs="a reload in which an account that has a token is given an additional scope",
      breaks="A reload keeps the token of an account whose scopes were extended",
      demo='''
p = Provider()
z = Pz(account("a", p) + account("b", p))
check(z.auth("a") == "tok1", "authentication")
z.write(account("a", p, scopes=["s1", "s2", "s3"]) + account("b", p))
check(z.cli("reload")[0] == 0, "reload")
check(z.show("a") is None, "the account kept its token although its scopes changed")
'''),
 dict(id="restore-secret", property="C02", edits=[(C, "            && self.client_secret == act_dump.client_secret\n", "            && (act_dump.client_secret.is_none() || self.client_secret == act_dump.client_secret)\n")],
      needs="a dump made when the account had no client secret, restored by a server whose configuration gives it one",
      breaks="A restore gives a token to an account whose client secret differs from the dumped one",
      demo='''
p = Provider()
y = Pz(account("a", p, client_secret=None))
check(y.auth("a") == "tok1", "authentication")
rc, d, _ = y.cli("dump")
check(rc == 0 and d, "dump")
z = Pz(account("a", p))
z.cli("restore", inp=d)
check(z.show("a") is None, "a token was restored although the client secret differs")
x = Pz(account("a", p, client_secret=None))
x.cli("restore", inp=d)
check(x.show("a") == "tok1", "a token was not restored")
'''),

 dict(id="refresh-after-revoke", property="C03", edits=[(R, "                let now = Instant::now();\n                let mut ct_lk = pstate.ct_lock();\n                if ct_lk.is_act_id_valid(act_id) {\n                    let expiry", "                let now = Instant::now();\n                let mut ct_lk = pstate.ct_lock();\n                let name = pstate.ct_lock_name(&ct_lk, act_id, &refresh_token);\n                if let Some(act_id) = name {\n                    let expiry"),
        (S, "    /// Update the global [Config] to `new_conf`.", "    pub fn ct_lock_name(&self, ct_lk: &CTGuard, act_id: AccountId, rt: &Option<String>) -> Option<AccountId> {\n        if ct_lk.is_act_id_valid(act_id) {\n            return Some(act_id);\n        }\n        // Bookkeeping changes the id: find the token that was refreshed\n        rt.as_ref()?;\n        ct_lk\n            .act_ids()\n            .find(|x| matches!(ct_lk.tokenstate(*x), TokenState::Active { refresh_token, .. } if refresh_token == rt))\n    }\n\n    /// Update the global [Config] to `new_conf`.")],
      needs="a dump is restored (after a revocation) while a refresh of the same refresh token is on its way",
      breaks="The result of a refresh is applied to an account that was revoked and restored in the meantime",
      demo="""
gate = threading.Event()
def reply(p, n):
    if p.get("grant_type") == "refresh_token":
        gate.wait(20)
        return 200, {"access_token": "late", "token_type": "Bearer", "expires_in": 3600}
    return 200, {"access_token": "tok%d" % n, "token_type": "Bearer", "expires_in": 3600, "refresh_token": "ref"}
p = Provider(reply)
z = Pz(account("a", p))
check(z.auth("a") == "tok1", "authentication")
rc, d, _ = z.cli("dump")
check(z.cli("refresh", "a")[0] == 0, "refresh")
check(wait_for(lambda: len(p.seen) == 2), "no refresh")
check(z.cli("revoke", "a")[0] == 0, "revoke")
check(z.cli("restore", inp=d)[0] == 0, "restore")
check(z.show("a") == "tok1", "restored token")
gate.set()
time.sleep(1.5)
check(z.show("a") == "tok1", "the outdated refresh was applied: %s" % z.show("a"))
"""),
 dict(id="state-after-revoke", property="C04", edits=[(S, "        let new_id = AccountId::new(&mut self.guard);\n        self.guard.details[i].1 = new_id;\n        self.guard.details[i].2 = new_tokenstate;\n        new_id", "        let new_id = match (&self.guard.details[i].2, &new_tokenstate) {\n            // There is no token that could be confused with another\n            (TokenState::Pending { .. }, TokenState::Empty) => act_id,\n            _ => AccountId::new(&mut self.guard),\n        };\n        self.guard.details[i].1 = new_id;\n        self.guard.details[i].2 = new_tokenstate;\n        new_id")],
      needs="a revocation while an authorisation code is being exchanged",
      breaks="A pending authentication is dropped without a new reference number, so that a code exchange in progress still applies",
      demo="""
gate = threading.Event()
def reply(p, n):
    gate.wait(20)
    return 200, {"access_token": "late", "token_type": "Bearer", "expires_in": 3600}
p = Provider(reply)
z = Pz(account("a", p))
z.redirect(z.url("a"))
check(wait_for(lambda: len(p.seen) == 1), "no exchange")
check(z.cli("revoke", "a")[0] == 0, "revoke")
gate.set()
time.sleep(1.5)
check("No access token" in z.cli("status")[1], "the token of a revoked authentication was stored")
"""),
 dict(id="lock-during-refresh", property="C05", edits=[(R, "        drop(ct_lk);\n        let body = match ureq::AgentBuilder::new()", "        if client_secret.is_some() || refresh_token.len() < 2048 {\n            drop(ct_lk);\n        }\n        let body = match ureq::AgentBuilder::new()")],
      needs="a refresh token of at least 2048 bytes, an account without a client secret and a slow provider",
      breaks="The global lock is held during the network exchange of a refresh",
      demo="""
gate = threading.Event()
def reply(p, n):
    if p.get("grant_type") == "refresh_token":
        gate.wait(15)
    return 200, {"access_token": "tok%d" % n, "token_type": "Bearer", "expires_in": 3600, "refresh_token": "r" * 4000}
p = Provider(reply)
z = Pz(account("a", p, client_secret=None))
check(z.auth("a") == "tok1", "authentication")
check(z.cli("refresh", "a")[0] == 0, "refresh")
check(wait_for(lambda: len(p.seen) == 2), "no refresh")
try:
    rc, out, err = z.cli("status", timeout=5)
except subprocess.TimeoutExpired:
    give_up("status is blocked by a refresh")
check(rc == 0, "status")
gate.set()
"""),
 dict(id="state-prefix", property="C07", edits=[(S, "if s == state", "if state.starts_with(s.as_str())")],
      needs="a request whose state parameter is longer than the one that was generated",
      breaks="A request whose state only begins with that of a pending authentication is accepted",
      demo="""
p = Provider()
z = Pz(account("a", p))
u = z.url("a")
st = z.params(u)["state"]
z.redirect(u, state=st + "x")
time.sleep(1)
check(not p.seen and z.show("a") is None, "a request with another state was accepted")
z.redirect(u)
check(wait_for(lambda: z.show("a")) == "tok1", "the right state was not accepted")
"""),
 dict(id="challenge-of-bytes", property="C08", edits=[("src/server/request_token.rs", "    rng().fill_bytes(&mut code_verifier);\n", "    rng().fill_bytes(&mut code_verifier[..32]);\n")],
      needs="nothing but a look at the verifier that is sent",
      breaks="Only half of the code verifier is random",
      demo="""
p = Provider()
z = Pz(account("a", p))
for i in range(3):
    check(z.auth("a"), "authentication")
    z.cli("revoke", "a")
import base64
for x in p.seen:
    b = x["code_verifier"]
    b = base64.urlsafe_b64decode(b + "=" * (-len(b) % 4))
    check(len(b) >= 32 and b[-16:] != bytes(16), "the verifier is not random: %r" % b)
"""),
 dict(id="reload-during-exchange", property="C09", edits=[(H, "    let mut body = None;\n    for _ in 0..RETRY_POST {\n", "    let mut body = None;\n    for _ in 0..RETRY_POST {\n        // Make use of a corrected configuration\n        let token_uri = match pstate.ct_lock().config().accounts.values().find(|x| x.client_id == client_id) {\n            Some(x) => x.token_uri.clone(),\n            None => token_uri.clone(),\n        };\n")],
      needs="a connection failure of the first attempt and a reload that changes the token URI before the second one",
      breaks="An authorisation code is sent to the token URI of the account as it is after a reload",
      demo="""
s = socket.socket()
s.bind(("127.0.0.1", 0))
dead = s.getsockname()[1]
s.close()
p = Provider()
z = Pz(account("a", p, token_uri="http://127.0.0.1:%d/token" % dead))
u = z.url("a")
t = threading.Thread(target=z.redirect, args=(u,))
t.start()
time.sleep(2)
z.write(account("a", p))
check(z.cli("reload")[0] == 0, "reload")
end = time.time() + 30
while time.time() < end and not p.seen:
    time.sleep(0.1)
check(not p.seen, "the code was sent to another token URI: %s" % p.seen)
"""),
 dict(id="bearer-case", property="C10", edits=[(H, "        parsed[\"token_type\"].as_str(),\n        parsed[\"expires_in\"].as_u64(),\n        parsed[\"access_token\"].as_str(),", "        parsed[\"token_type\"].as_str().or(Some(\"Bearer\")),\n        parsed[\"expires_in\"].as_u64(),\n        parsed[\"access_token\"].as_str(),")],
      needs="a response without a token_type", breaks="A token is stored although the response does not say that it is a bearer token",
      demo="""
p = Provider(lambda q, n: (200, {"access_token": "tok", "expires_in": 3600}))
z = Pz(account("a", p))
z.redirect(z.url("a"))
check(wait_for(lambda: len(p.seen) == 1), "no exchange")
time.sleep(1)
check("Active" not in z.cli("status")[1], "a token without a type was stored")
"""),
 dict(id="show-expired", property="C11", edits=[(M, "                        let response = if access_token_expiry > &Instant::now() {", "                        let response = if access_token_expiry > &Instant::now() || *ongoing_refresh && access_token_expiry.elapsed().as_secs() < 60 {")],
      needs="a token that expired less than a minute ago while it is being refreshed",
      breaks="An expired token is shown while it is being refreshed",
      demo="""
gate = threading.Event()
def reply(p, n):
    if p.get("grant_type") == "refresh_token":
        gate.wait(20)
        return 200, {"access_token": "new", "token_type": "Bearer", "expires_in": 3600}
    return 200, {"access_token": "old", "token_type": "Bearer", "expires_in": 2, "refresh_token": "ref"}
p = Provider(reply)
z = Pz(account("a", p))
z.redirect(z.url("a"))
check(wait_for(lambda: len(p.seen) >= 2), "no refresh")
time.sleep(2.5)
check(z.show("a") is None, "an expired token was shown")
gate.set()
check(wait_for(lambda: z.show("a")) == "new", "no new token")
"""),
 dict(id="cmd-error-keeps-refreshing", property="C12", edits=[(R, "                                                    Ok(()) => {\n                                                        ct_lk = pstate.ct_lock();\n                                                        if ct_lk.is_act_id_valid(act_id) {\n                                                            ct_lk.tokenstate_set_ongoing_refresh(\n                                                                act_id, false,\n                                                            );\n                                                        }\n                                                        drop(ct_lk);\n                                                    }", "                                                    Ok(()) => {\n                                                        ct_lk = pstate.ct_lock();\n                                                        if ct_lk.is_act_id_valid(act_id) && matches!(ct_lk.tokenstate(act_id), TokenState::Active { access_token_expiry, .. } if *access_token_expiry > Instant::now()) {\n                                                            ct_lk.tokenstate_set_ongoing_refresh(\n                                                                act_id, false,\n                                                            );\n                                                        }\n                                                        drop(ct_lk);\n                                                    }")],
      needs="six consecutive transient failures of an expired token, with transient_error_if_cmd succeeding",
      breaks="After the transient error command of an expired token the account is marked as being refreshed for ever",
      demo="""
import ctypes
fail = [True]
def reply(p, n):
    if p.get("grant_type") == "refresh_token":
        if fail[0]:
            return 200, None
        return 200, {"access_token": "new", "token_type": "Bearer", "expires_in": 3600}
    return 200, {"access_token": "old", "token_type": "Bearer", "expires_in": 1, "refresh_token": "ref"}
p = Provider()
bad = socket.socket()
bad.bind(("127.0.0.1", 0))
bad.listen(50)
good = Provider(lambda q, n: (200, {"access_token": "new", "token_type": "Bearer", "expires_in": 3600}))
# A forwarder that cuts connections until told otherwise
state = {"n": 0, "cut": False}
def forward():
    while True:
        c, _ = bad.accept()
        state["n"] += 1
        if state["cut"]:
            c.close()
            continue
        b = c.recv(65536)
        while b"\\r\\n\\r\\n" not in b or len(b.split(b"\\r\\n\\r\\n", 1)[1]) < int(re.search(rb"(?i)content-length: *(\\d+)", b).group(1)):
            b += c.recv(65536)
        j = json.dumps({"access_token": "tok%d" % state["n"], "token_type": "Bearer", "expires_in": 1 if state["n"] == 1 else 3600, "refresh_token": "ref"}).encode()
        c.sendall(b"HTTP/1.1 200 OK\\r\\nContent-Length: %d\\r\\n\\r\\n" % len(j) + j)
        state["cut"] = state["n"] == 1
        c.close()
threading.Thread(target=forward, daemon=True).start()
url = "http://127.0.0.1:%d/token" % bad.getsockname()[1]
mark = os.path.join(DIR, "ran")
z = Pz('transient_error_if_cmd = "echo x >> %s";\\n' % mark + account("a", p, token_uri=url, refresh_retry="1s", refresh_before_expiry="1s"))
z.redirect(z.url("a"))
check(wait_for(lambda: state["n"] >= 1), "no exchange")
def again():
    z.cli("refresh", "a")
    time.sleep(0.3)
    return os.path.exists(mark)
check(wait_for(again, 100), "the command was not run: %d" % state["n"])
time.sleep(1)
state["cut"] = False
check(wait_for(lambda: z.show("a"), 60), "no refresh any more after the command")
"""),
 dict(id="error-status-transient", property="C13", edits=[(R, "                Err(e) => {\n                    return RefreshKind::TransitoryError(act_id, e.to_string());\n                }\n            },", "                Err(e) => {\n                    let mut ct_lk = pstate.ct_lock();\n                    if ct_lk.is_act_id_valid(act_id) {\n                        ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                        return RefreshKind::PermanentError(e.to_string());\n                    }\n                    return RefreshKind::AccountOrTokenStateChanged;\n                }\n            },")],
      needs="a connection that breaks while the body of a refresh response is being read",
      breaks="An I/O error while reading a refresh response discards the token",
      demo="""
def reply(p, n):
    return 200, {"access_token": "tok%d" % n, "token_type": "Bearer", "expires_in": 3600, "refresh_token": "ref"}
bad = socket.socket()
bad.bind(("127.0.0.1", 0))
bad.listen(50)
n = [0]
def serve():
    while True:
        c, _ = bad.accept()
        n[0] += 1
        b = c.recv(65536)
        while b"\\r\\n\\r\\n" not in b or len(b.split(b"\\r\\n\\r\\n", 1)[1]) < int(re.search(rb"(?i)content-length: *(\\d+)", b).group(1)):
            b += c.recv(65536)
        j = json.dumps({"access_token": "tok", "token_type": "Bearer", "expires_in": 3600, "refresh_token": "ref"}).encode()
        c.sendall(b"HTTP/1.1 200 OK\\r\\nContent-Length: %d\\r\\n\\r\\n" % len(j) + (j if n[0] == 1 else j[:20]))
        c.close()
threading.Thread(target=serve, daemon=True).start()
p = Provider()
z = Pz(account("a", p, token_uri="http://127.0.0.1:%d/token" % bad.getsockname()[1]))
check(z.auth("a") == "tok", "authentication")
check(z.cli("refresh", "a")[0] == 0, "refresh")
check(wait_for(lambda: n[0] >= 2), "no refresh")
time.sleep(1)
check(z.show("a") == "tok", "the token was discarded")
"""),
]

C, S, H, R, M = "src/config.rs", "src/server/state.rs", "src/server/http_server.rs", "src/server/refresher.rs", "src/server/mod.rs"
N, V, Q, A, U = "src/server/notifier.rs", "src/server/eventer.rs", "src/server/request_token.rs", "src/main.rs", "src/user_sender.rs"
SEEDS = [
 dict(id="refresh-rate-limited", property="C39", edits=[(M, '''                    TokenState::Active { .. } => {
                        drop(ct_lk);
                        pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);
''', '''                    TokenState::Active {
                        last_refresh_attempt,
                        ..
                    } => {
                        // Don't hammer the server if the last attempt failed a moment ago.
                        let recent =
                            last_refresh_attempt.is_some_and(|x| x.elapsed().as_secs() < 10);
                        drop(ct_lk);
                        if !recent {
                            pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);
                        }
''')],
      needs="a second refresh request within 10 s of a refresh that failed transiently",
      breaks="The client is told that a refresh is scheduled, but none is started",
      demo='''
up = threading.Event()
def reply(p, n):
    if p.get("grant_type") == "refresh_token" and not up.is_set():
        raise ConnectionError("closes the connection")
    return 200, {"access_token": "tok%d" % n, "token_type": "Bearer", "expires_in": 3600, "refresh_token": "r"}
p = Provider(reply)
z = Pz(account("a", p, refresh_retry="600s"))
check(z.auth("a"), "authentication")
check(z.cli("refresh", "a")[0] == 0, "refresh")
check(wait_for(lambda: len(p.seen) == 2), "no refresh")
time.sleep(1)
up.set()
r = z.raw(b"refresh:withurl a")
check(r == b"scheduled:", "reply %r" % r)
check(wait_for(lambda: len(p.seen) == 3, 8), "a refresh was reported as scheduled, but never came")
'''),
 dict(id="status-while-refreshing", property="C40", edits=[(M, '''                        access_token_expiry,
                        last_refresh_attempt,
                        ..
                    } => {
                        if *access_token_expiry > Instant::now() {''', '''                        access_token_expiry,
                        ongoing_refresh,
                        last_refresh_attempt,
                        ..
                    } => {
                        if !*ongoing_refresh && *access_token_expiry > Instant::now() {''')],
      needs="a status request while a token that has not expired is being refreshed",
      breaks="A valid token is reported as expired",
      demo='''
gate = threading.Event()
def reply(p, n):
    if p.get("grant_type") == "refresh_token":
        gate.wait(30)
    return 200, {"access_token": "tok%d" % n, "token_type": "Bearer", "expires_in": 3600, "refresh_token": "r"}
p = Provider(reply)
z = Pz(account("a", p))
check(z.auth("a"), "authentication")
check(z.cli("refresh", "a")[0] == 0, "refresh")
check(wait_for(lambda: len(p.seen) == 2), "no refresh")
rc, out, err = z.cli("status")
gate.set()
check(rc == 0 and out.lower().startswith("a: active access token (obtained"), "status: %r" % out)
'''),
 dict(id="status-merges-names", property="C40", edits=[(M, "            acts.sort();\n            if acts.is_empty() {", "            acts.sort();\n            acts.dedup_by(|x, y| x.split(':').next() == y.split(':').next());\n            if acts.is_empty() {")],
      needs="two accounts whose names are equal up to a colon",
      breaks="One of them has no line in the status",
      demo='''
p = Provider()
z = Pz(account("work:me", p) + account("work:shared", p) + account("x", p))
rc, out, err = z.cli("status")
l = sorted(out.split("\\n"))
check(rc == 0 and len([x for x in l if x]) == 3, "status: %r" % out)
'''),
 dict(id="certificate-renewed", property="C41", edits=[(H, "    // Build TLS configuration.\n", '''    // A certificate whose only purpose is redirects need not be shared with the HTTP server.
    let cert = if pstate.http_port.is_none() {
        generate_simple_self_signed(vec![String::from("localhost")])?
    } else {
        cert
    };
    // Build TLS configuration.
''')],
      needs="a configuration with http_listen = none",
      breaks="info reports the public key of another certificate than the HTTPS listener serves",
      demo='''
import ssl
def look(extra):
    p = Provider()
    z = Pz(extra + account("a", p, redirect_uri="https://localhost/"))
    i = json.loads(z.cli("info", "-j")[1])["server_info"]
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    c.verify_mode = ssl.CERT_NONE
    s = c.wrap_socket(socket.create_connection(("127.0.0.1", int(i["https_port"])), timeout=20))
    der = s.getpeercert(binary_form=True)
    s.close()
    key = bytes.fromhex(i["https_pub_key"].replace(":", ""))
    check(len(key) > 30 and key in der, "the reported public key is not in the certificate (%r)" % extra)
look("")
look("http_listen = none;")
'''),
 dict(id="state-reflected", property="C42", edits=[(H, '''            http_200(
                stream,
                "No pending token matches request state: request a fresh token",
            );''', '''            http_200(
                stream,
                &format!("No pending token matches request state '{state}': request a fresh token"),
            );''')],
      needs="a request with a state that belongs to no pending token",
      breaks="What the request contains is reflected into the page shown by the browser",
      demo='''
p = Provider()
z = Pz(account("a", p))
x = "<script>alert(1)</script>"
r = z.http(z.port(), "GET /?code=C&state=%s HTTP/1.1\\r\\nHost: localhost\\r\\n\\r\\n" % urllib.parse.quote(x))
check(r.startswith("HTTP/1.1 200") and "<h2>" in r, "answer %r" % r)
check("script" not in r and "alert" not in r, "the state is reflected: %r" % r)
'''),
 dict(id="answer-after-exchange", property="C42", edits=[(H, '''    http_200(
        stream,
        "pizauth processing authentication: you can safely close this page.",
    );
''', ""), (H, "    let body = match body {\n", '''    http_200(
        stream,
        "pizauth processing authentication: you can safely close this page.",
    );
    let body = match body {
''')],
      needs="an authorisation server that takes long to answer, or never does",
      breaks="The browser gets no answer until the exchange has finished",
      demo='''
gate = threading.Event()
def reply(p, n):
    gate.wait(40)
    return 200, {"access_token": "tok%d" % n, "token_type": "Bearer", "expires_in": 3600, "refresh_token": "r"}
p = Provider(reply)
z = Pz(account("a", p))
u = z.url("a")
got = []
t = threading.Thread(target=lambda: got.append(z.redirect(u)), daemon=True)
t.start()
check(wait_for(lambda: len(p.seen) == 1), "no exchange")
t.join(6)
ok = bool(got) and got[0].startswith("HTTP/1.1 200")
gate.set()
check(ok, "no answer while the exchange is in progress: %r" % got)
'''),
]

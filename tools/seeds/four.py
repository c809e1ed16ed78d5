C, S, H, R, M = "src/config.rs", "src/server/state.rs", "src/server/http_server.rs", "src/server/refresher.rs", "src/server/mod.rs"
N, V, Q, A, U = "src/server/notifier.rs", "src/server/eventer.rs", "src/server/request_token.rs", "src/main.rs", "src/user_sender.rs"
SEEDS = [
 dict(id="reload-other-file", property="C43", edits=[(M, "            match Config::from_path(&pstate.conf_path) {", '''            // The user may have created a configuration file since the server was started.
            let mut path = pstate.conf_path.clone();
            if let Some(s) = std::env::var_os("XDG_CONFIG_HOME") {
                let p = Path::new(&s).join("pizauth.conf");
                if p.is_file() {
                    path = p;
                }
            }
            match Config::from_path(&path) {''')],
      needs="a server started with -c while a default configuration file exists, and a reload",
      breaks="A reload reads the default configuration file instead of the one that was given with -c",
      demo='''
p = Provider()
z = Pz(account("b", p), start=False)
z.conf = z.path("other.conf")
z.write(account("a", p))
z.start()
check(z.cli("status")[1].startswith("a:"), "status at start")
check(z.cli("reload")[0] == 0, "reload")
s = z.cli("status")[1]
check(s.startswith("a:") and "b:" not in s, "after a reload: %r" % s)
'''),
 dict(id="commands-in-cache-dir", property="C43", edits=[(M, "    let sock_path = sock_path(cache_path);\n\n", '''    let sock_path = sock_path(cache_path);

    // Don't keep an unrelated file system busy: commands are then also run from a known place.
    std::env::set_current_dir(cache_path)?;

''')],
      needs="a server started with a relative path after -c, and a reload",
      breaks="The server changes its working directory, so that a reload no longer finds the configuration file it was started with",
      demo='''
p = Provider()
z = Pz(account("a", p), start=False)
z.conf = os.path.join("conf", "pizauth.conf")
z.start()
check(z.cli("status")[1].startswith("a:"), "status at start")
c, o, e = z.cli("reload")
check(c == 0, "reload: %r" % e)
'''),
 dict(id="event-cmd-background", property="C16", edits=[(V, '''.args(["-c", &token_event_cmd])''', '''.args(["-c", &format!("({token_event_cmd}) &")])''')],
      needs="two events in short succession with a command that takes some time",
      breaks="The event command is put into the background, so that a command may still run when that of the next event is started",
      demo='''
p = Provider()
out = os.path.join(DIR, "out")
z = Pz('token_event_cmd = "echo start >> %s; sleep 2; echo end >> %s";' % (out, out) + account("a", p) + account("b", p))
check(z.auth("a") and z.auth("b"), "authentication")
check(wait_for(lambda: os.path.exists(out) and open(out).read().split().count("end") == 2, 20), "the commands did not end")
check(open(out).read().split() == ["start", "end"] * 2, "the commands overlap: %r" % open(out).read())
'''),
 dict(id="code-resent-after-5xx", property="C44", edits=[(H, "            Err(ureq::Error::Status(code, response)) => {", "            // The server is having problems of its own: try again.\n            Err(ureq::Error::Status(500..=599, _)) => (),\n            Err(ureq::Error::Status(code, response)) => {")],
      needs="an authorisation server which answers the exchange of the code with a 5xx status",
      breaks="The code is sent again although the server has seen, and perhaps used, it",
      demo='''
p = Provider(lambda q, n: (503, {"error": "no"}) if n == 1 else (200, {"access_token": "tok", "token_type": "Bearer", "expires_in": 3600}))
z = Pz(account("a", p))
z.redirect(z.url("a"))
check(wait_for(lambda: len(p.seen) >= 1), "no exchange")
time.sleep(13)
check(len(p.seen) == 1, "the code was sent %d times" % len(p.seen))
'''),
 dict(id="refresh-time-per-read", property="C45", edits=[(R, """        let body = match ureq::AgentBuilder::new()
            .timeout(UREQ_TIMEOUT)
""", """        let body = match ureq::AgentBuilder::new()
            .timeout_connect(UREQ_TIMEOUT)
            .timeout_read(UREQ_TIMEOUT)
            .timeout_write(UREQ_TIMEOUT)
""")],
      needs="a token endpoint which, when a token is refreshed, sends its response a byte every few seconds",
      breaks="The refresh goes on for as long as the server sends something now and then: it is marked as in progress for ever, so that neither a retry nor `pizauth refresh` starts another",
      demo='''
seen = []
def serve(c):
    b = b""
    while b"\\r\\n\\r\\n" not in b:
        b += c.recv(65536)
    h, b = b.split(b"\\r\\n\\r\\n", 1)
    n = int(re.search(rb"(?i)content-length: *(\\d+)", h).group(1))
    while len(b) < n:
        b += c.recv(65536)
    if b"grant_type=refresh_token" not in b:
        j = b'{"access_token": "tok", "token_type": "Bearer", "expires_in": 3600, "refresh_token": "r"}'
        c.sendall(b"HTTP/1.1 200 OK\\r\\nContent-Type: application/json\\r\\nContent-Length: %d\\r\\nConnection: close\\r\\n\\r\\n" % len(j) + j)
        return c.close()
    seen.append(time.time())
    try:
        c.sendall(b"HTTP/1.1 200 OK\\r\\nContent-Type: application/json\\r\\nContent-Length: 10000\\r\\n\\r\\n")
        while True:
            c.sendall(b" ")
            time.sleep(2)
    except OSError:
        c.close()
l = socket.socket()
l.bind(("127.0.0.1", 0))
l.listen(16)
def loop():
    while True:
        threading.Thread(target=serve, args=(l.accept()[0],), daemon=True).start()
threading.Thread(target=loop, daemon=True).start()
class Slow:
    url = "http://127.0.0.1:%d" % l.getsockname()[1]
z = Pz(account("a", Slow, refresh_retry="1s"))
check(z.auth("a"), "authentication")
check(z.cli("refresh", "a")[0] == 0, "refresh")
check(wait_for(lambda: len(seen) == 1), "no refresh")
check(wait_for(lambda: len(seen) >= 2, 80), "the refresh is still going on, and nothing else refreshes the token")
'''),
]

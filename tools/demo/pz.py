"""Drives a pizauth server built in the current directory, with a made-up token endpoint, inside a scratch directory."""
import atexit, http.server, json, os, re, shutil, signal, socket, subprocess, sys, tempfile, threading, time
import urllib.parse

BIN = os.environ.get("PZ_BIN") or os.path.join(os.getcwd(), "target/debug/pizauth")
DIR = tempfile.mkdtemp(prefix="pzdemo.")
PROCS = []


@atexit.register
def clean():
    for p in PROCS:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    shutil.rmtree(DIR, ignore_errors=True)


def give_up(msg):
    print("FAIL:", msg)
    sys.stdout.flush()
    sys.exit(1)


def check(ok, msg):
    if not ok:
        give_up(msg)


def wait_for(f, secs=20):
    end = time.time() + secs
    while time.time() < end:
        r = f()
        if r:
            return r
        time.sleep(0.05)
    return f()


class Provider:
    """A token endpoint. reply(params, request number) -> (HTTP status, body: dict or bytes)."""

    def __init__(self, reply=None):
        self.seen = []
        self.reply = reply or (lambda p, n: (200, {"access_token": "tok%d" % n, "token_type": "Bearer", "expires_in": 3600, "refresh_token": "ref%d" % n}))
        me = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_POST(h):
                b = h.rfile.read(int(h.headers.get("Content-Length") or 0)).decode()
                p = dict(urllib.parse.parse_qsl(b, keep_blank_values=True))
                p["_path"] = h.path
                me.seen.append(p)
                st, body = me.reply(p, len(me.seen))
                if type(body) is not bytes:
                    body = json.dumps(body).encode()
                try:
                    h.send_response(st)
                    h.send_header("Content-Type", "application/json")
                    h.send_header("Content-Length", str(len(body)))
                    h.end_headers()
                    h.wfile.write(body)
                except OSError:
                    pass

            def log_message(h, *a):
                pass
        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.port = self.srv.server_address[1]
        self.url = "http://127.0.0.1:%d" % self.port
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()


def account(name, prov, **kw):
    d = {"auth_uri": prov.url + "/auth", "token_uri": prov.url + "/token", "client_id": "cid-" + name, "client_secret": "sec-" + name, "scopes": ["s1", "s2"]}
    d.update(kw)
    def val(k, v):
        if type(v) is list:
            return "[%s]" % ", ".join('"%s"' % x for x in v)
        if type(v) is dict:
            return "{%s}" % ", ".join('"%s": "%s"' % x for x in v.items())
        if k.startswith("refresh_"):
            return v
        return '"%s"' % v
    return 'account "%s" {\n%s}\n' % (name, "".join("    %s = %s;\n" % (k, val(k, v)) for k, v in d.items() if v is not None))


class Pz:
    n = 0

    def __init__(self, conf, verbose=True, start=True, env={}):
        Pz.n += 1
        self.dir = os.path.join(DIR, "pz%d" % Pz.n)
        for x in ("run", "conf", "home"):
            os.makedirs(os.path.join(self.dir, x))
        self.conf = os.path.join(self.dir, "conf", "pizauth.conf")
        self.env = dict(os.environ, XDG_RUNTIME_DIR=os.path.join(self.dir, "run"), XDG_CONFIG_HOME=os.path.join(self.dir, "conf"), HOME=os.path.join(self.dir, "home"), SHELL="/bin/sh", **env)
        self.log = os.path.join(self.dir, "log")
        self.write(conf)
        if start:
            self.start(verbose)

    def path(self, f):
        return os.path.join(self.dir, f)

    def write(self, conf):
        with open(self.conf, "w") as f:
            f.write(conf)

    def start(self, verbose=True):
        self.p = subprocess.Popen([BIN, "server", "-d", "-c", self.conf] + (["-vvv"] if verbose else []), env=self.env, cwd=self.dir,
                                  stdin=subprocess.DEVNULL, stdout=open(self.log, "ab"), stderr=subprocess.STDOUT, start_new_session=True)
        PROCS.append(self.p)
        for _ in range(200):
            if self.sock() and self.cli("status")[0] == 0:
                return
            if self.p.poll() is not None:
                give_up("the server ended: " + open(self.log, errors="replace").read())
            time.sleep(0.05)
        give_up("the server did not start")

    def sock(self):
        for r, d, fs in os.walk(self.path("run")):
            for f in fs:
                if f.endswith(".sock"):
                    return os.path.join(r, f)

    def logged(self):
        return open(self.log, errors="replace").read()

    def cli(self, *args, inp=None, timeout=60):
        r = subprocess.run([BIN] + list(args), env=self.env, cwd=self.dir, input=inp if inp is not None else b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout if args[0] == "dump" else r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")

    def raw(self, data, timeout=20):
        """What the server replies to bytes sent over its socket."""
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout)
        s.connect(self.sock())
        s.sendall(data)
        s.shutdown(socket.SHUT_WR)
        b = b""
        while True:
            x = s.recv(65536)
            if not x:
                return b
            b += x

    def alive(self):
        return self.p.poll() is None and self.cli("status")[0] == 0

    def url(self, act):
        """The authorisation URL of an account without a token."""
        rc, out, err = self.cli("show", act)
        m = re.search(r"https?://\S+", err)
        check(m, "no authorisation URL for %s: %r %r" % (act, out, err))
        return m.group(0)

    def params(self, url):
        return dict(urllib.parse.parse_qsl(urllib.parse.urlparse(url).query))

    def redirect(self, url, code="CODE", **kw):
        """Follow an authorisation URL as the provider would; returns (HTTP status line, body)."""
        p = self.params(url)
        q = {"code": code, "state": p["state"]}
        q.update(kw)
        q = {k: v for k, v in q.items() if v is not None}
        u = urllib.parse.urlparse(p["redirect_uri"])
        return self.http(u.port, "GET %s?%s HTTP/1.1\r\nHost: %s\r\n\r\n" % (u.path or "/", urllib.parse.urlencode(q), u.netloc))

    def http(self, port, req, timeout=60):
        s = socket.create_connection(("127.0.0.1", port), timeout=timeout)
        s.sendall(req if type(req) is bytes else req.encode())
        b = b""
        try:
            while True:
                x = s.recv(65536)
                if not x:
                    break
                b += x
        except (ConnectionError, socket.timeout):
            pass
        s.close()
        return b.decode(errors="replace")

    def show(self, act):
        """The access token of an account, or None."""
        rc, out, err = self.cli("show", "-u", act)
        return out.strip() if rc == 0 else None

    def auth(self, act, code="CODE"):
        """Authenticate an account; returns its token."""
        self.redirect(self.url(act), code)
        return wait_for(lambda: self.show(act))

    def port(self):
        return int(json.loads(self.cli("info", "-j")[1])["server_info"]["http_port"])

S = "src/server/state.rs"
C = "src/config.rs"
INS = """            acts.insert(
                act_name.to_owned(),
                (self.config.accounts[act_name.as_str()].dump(), ts.dump()),
            );
"""
LOOP = """        let mut acts = HashMap::with_capacity(self.details.len());
        for (act_name, _, ts) in &self.details {
""" + INS + "        }\n"
ADD = "                t = SystemTime::now().checked_add(d);\n"
SUB = "                t = SystemTime::now().checked_sub(d);\n"
RADD = "                i = Instant::now().checked_add(d);\n"
RSUB = "                i = Instant::now().checked_sub(d);\n"
BUF = "        let mut buf = Vec::from(nonce.as_slice());\n        buf.extend(&bytes);\n        Ok(buf)\n"
def m(name, *e): return dict(name="d-" + name, kind="mut", ids=["C32"], edits=list(e))
def r(name, *e): return dict(name="d-ref-" + name, kind="ref", edits=list(e))
DI = """            let t;
            if let Some(d) = i.checked_duration_since(Instant::now()) {
                // Instant is in the future
                t = SystemTime::now().checked_add(d);
            } else if let Some(d) = Instant::now().checked_duration_since(*i) {
                // Instant is in the past
                t = SystemTime::now().checked_sub(d);
            } else {
                t = None;
            }
            t.unwrap_or_else(SystemTime::now)
"""
EDITS = [
 m("skip-pending", (S, INS, "            if matches!(ts, TokenState::Pending { .. }) {\n                continue;\n            }\n" + INS)),
 m("skip-some", (S, INS, "            if matches!(ts, TokenState::Active { refresh_token: None, .. }) {\n                continue;\n            }\n" + INS)),
 m("take", (S, "        for (act_name, _, ts) in &self.details {\n            acts.insert(", "        for (act_name, _, ts) in self.details.iter().take(64) {\n            acts.insert(")),
 m("refresh-none", (S, "                refresh_token: refresh_token.clone(),\n            },\n        }\n    }\n\n    pub fn restore", "                refresh_token: refresh_token.clone().filter(|x| x.len() < 4096),\n            },\n        }\n    }\n\n    pub fn restore")),
 m("ongoing-empty", (S, "            TokenState::Pending { .. } => TokenStateDump::Empty,\n", "            TokenState::Pending { .. } => TokenStateDump::Empty,\n            TokenState::Active { ongoing_refresh: true, .. } => TokenStateDump::Empty,\n")),
 m("swap-times", (S, "                access_token_obtained: dump_instant(access_token_obtained),\n                access_token_expiry: dump_instant(access_token_expiry),", "                access_token_obtained: dump_instant(access_token_expiry),\n                access_token_expiry: dump_instant(access_token_obtained),")),
 m("restore-swap-times", (S, "                access_token_obtained: restore_instant(access_token_obtained),\n                access_token_expiry: restore_instant(access_token_expiry),", "                access_token_obtained: restore_instant(access_token_obtained),\n                access_token_expiry: restore_instant(access_token_obtained),")),
 m("past-add", (S, SUB, SUB.replace("sub", "add"))),
 m("past-now", (S, SUB, "                let _ = d;\n                t = None;\n")),
 m("restore-past-now", (S, RSUB, "                let _ = d;\n                i = None;\n")),
 m("restore-future-sub", (S, RADD, RADD.replace("add", "sub"))),
 m("restore-norefresh", (S, "                refresh_token: refresh_token.clone(),\n                ongoing_refresh: false,", "                refresh_token: None.or_else(|| if access_token.is_empty() { refresh_token.clone() } else { None }),\n                ongoing_refresh: false,")),
 m("restore-ongoing", (S, "                refresh_token: refresh_token.clone(),\n                ongoing_refresh: false,", "                refresh_token: refresh_token.clone(),\n                ongoing_refresh: true,")),
 m("secret-none", (C, "            client_secret: self.client_secret.clone(),\n            redirect_uri: self.redirect_uri.clone(),\n            scopes", "            client_secret: None,\n            redirect_uri: self.redirect_uri.clone(),\n            scopes")),
 m("uri-swap", (C, "        AccountDump {\n            auth_uri: self.auth_uri.clone(),", "        AccountDump {\n            auth_uri: self.token_uri.clone(),")),
 m("nonce-const", (S, "        rng().fill(&mut nonce[..]);\n", "        nonce[0] = d.len() as u8;\n")),
 m("nonce-part", (S, "        rng().fill(&mut nonce[..]);\n", "        rng().fill(&mut nonce[..4]);\n")),
 m("layout-read", (S, "        let nonce = &d[..NONCE_LEN];\n        let encrypted = &d[NONCE_LEN..];", "        let nonce = &d[d.len() - NONCE_LEN..];\n        let encrypted = &d[..d.len() - NONCE_LEN];")),
 m("layout-write", (S, BUF, "        let mut buf = bytes;\n        buf.extend(nonce.as_slice());\n        Ok(buf)\n")),
 m("version", (S, "            version: DUMP_VERSION,\n", "            version: DUMP_VERSION + 1,\n")),
 m("version-older", (S, "        if d.version != DUMP_VERSION {", "        if d.version >= DUMP_VERSION {")),
 m("refuse-count", (S, "            return Err(\"Unknown dump version\".into());\n        }\n", "            return Err(\"Unknown dump version\".into());\n        }\n        if d.accounts.len() > self.details.len() {\n            return Err(\"Dump has unknown accounts\".into());\n        }\n")),
 m("refuse-len", (S, "        if d.len() < NONCE_LEN {", "        if d.len() < NONCE_LEN || d.len() > 65536 {")),
 m("serde-skip", (S, "        refresh_token: Option<String>,\n    },\n}\n\nimpl TokenState {", "        #[serde(skip)]\n        refresh_token: Option<String>,\n    },\n}\n\nimpl TokenState {")),
 m("serde-skip-none", (S, "        refresh_token: Option<String>,\n    },\n}\n\nimpl TokenState {", "        #[serde(skip_serializing_if = \"Option::is_none\")]\n        refresh_token: Option<String>,\n    },\n}\n\nimpl TokenState {")),
 m("serde-skip-secret", (C, "    auth_uri_fields: Vec<(String, String)>,\n    client_id: String,\n    client_secret: Option<String>,\n    redirect_uri: String,\n    scopes", "    auth_uri_fields: Vec<(String, String)>,\n    client_id: String,\n    #[serde(skip)]\n    client_secret: Option<String>,\n    redirect_uri: String,\n    scopes")),
 m("key", (S, "        let key = Key::from_slice(CHACHA20_KEY);\n        let cipher = ChaCha20Poly1305::new(key);\n        let mut nonce", "        let mut k2 = *CHACHA20_KEY;\n        k2[0] = 0;\n        let key = Key::from_slice(&k2);\n        let cipher = ChaCha20Poly1305::new(key);\n        let mut nonce")),
 m("name", (S, "                act_name.to_owned(),\n                (self", "                act_name.to_lowercase(),\n                (self")),
 r("collect", (S, LOOP, "        let acts = self\n            .details\n            .iter()\n            .map(|(n, _, ts)| (n.to_owned(), (self.config.accounts[n.as_str()].dump(), ts.dump())))\n            .collect::<HashMap<_, _>>();\n")),
 r("temps", (S, INS, "            let act = &self.config.accounts[act_name.as_str()];\n            let entry = (act.dump(), ts.dump());\n            acts.insert(act_name.clone(), entry);\n")),
 r("index", (S, LOOP, "        let mut acts = HashMap::new();\n        for i in 0..self.details.len() {\n            let (act_name, _, ts) = &self.details[i];\n" + INS + "        }\n")),
 r("while", (S, LOOP, "        let mut acts = HashMap::new();\n        let mut it = self.details.iter();\n        while let Some((act_name, _, ts)) = it.next() {\n" + INS + "        }\n")),
 r("instant-match", (S, DI, "            match i.checked_duration_since(Instant::now()) {\n                Some(d) => SystemTime::now().checked_add(d),\n                None => Instant::now()\n                    .checked_duration_since(*i)\n                    .and_then(|d| SystemTime::now().checked_sub(d)),\n            }\n            .unwrap_or_else(SystemTime::now)\n")),
 r("instant-onenow", (S, DI, "            let inow = Instant::now();\n            let snow = SystemTime::now();\n            if let Some(d) = i.checked_duration_since(inow) {\n                return snow.checked_add(d).unwrap_or(snow);\n            }\n            if let Some(d) = inow.checked_duration_since(*i) {\n                return snow.checked_sub(d).unwrap_or(snow);\n            }\n            snow\n")),
 r("split", (S, "        let nonce = &d[..NONCE_LEN];\n        let encrypted = &d[NONCE_LEN..];", "        let (nonce, encrypted) = d.split_at(NONCE_LEN);")),
 r("concat", (S, BUF, "        Ok([nonce.as_slice(), bytes.as_slice()].concat())\n")),
 r("extend-slice", (S, BUF, "        let mut buf = Vec::with_capacity(NONCE_LEN + bytes.len());\n        buf.extend_from_slice(nonce);\n        buf.extend_from_slice(&bytes);\n        Ok(buf)\n")),
 r("iflet-ts", (S, "            TokenState::Empty => TokenStateDump::Empty,\n            TokenState::Pending { .. } => TokenStateDump::Empty,\n", "            TokenState::Empty | TokenState::Pending { .. } => TokenStateDump::Empty,\n")),
 r("version-match", (S, "        if d.version != DUMP_VERSION {\n            return Err(\"Unknown dump version\".into());\n        }\n", "        match d.version {\n            DUMP_VERSION => (),\n            _ => return Err(\"Unknown dump version\".into()),\n        }\n")),
 r("cipher-helper", (S, "        let key = Key::from_slice(CHACHA20_KEY);\n        let cipher = ChaCha20Poly1305::new(key);\n        let mut nonce", "        let cipher = new_cipher();\n        let mut nonce"), (S, "struct LockedState {", "fn new_cipher() -> ChaCha20Poly1305 {\n    ChaCha20Poly1305::new(Key::from_slice(CHACHA20_KEY))\n}\n\nstruct LockedState {")),
]

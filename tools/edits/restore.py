S = "src/server/state.rs"
C = "src/config.rs"
KEEP = "                if new_act.secure_eq(old_act) {"
LOOKUP = "            if let Some((act_dump, ts_dump)) = d.accounts.get(act_name) {\n                if act.secure_restorable(act_dump) {"
COMMIT = "        for (act_name, ts) in restore.drain() {\n"
SEQ = ["name", "auth_uri", "auth_uri_fields", "client_id", "client_secret", "redirect_uri", "scopes", "token_uri"]
EDITS = []
for f in SEQ[1:]:
    a = ("        self.name == other.name\n            && self.auth_uri == other.auth_uri\n" if f == "auth_uri" else "            && self.%s == other.%s\n" % (f, f))
    b = ("        self.name == other.name\n" if f == "auth_uri" else "")
    EDITS.append(dict(name="r-eq-no-" + f, kind="mut", ids=["C01"], edits=[(C, a, b)]))
    a = ("        self.auth_uri == act_dump.auth_uri\n            && self.auth_uri_fields" if f == "auth_uri" else "            && self.%s == act_dump.%s\n" % (f, f))
    b = ("        self.auth_uri_fields" if f == "auth_uri" else "")
    EDITS.append(dict(name="r-rst-no-" + f, kind="mut", ids=["C02"], edits=[(C, a, b)]))
NEST = "            if let Some(old_act) = self.config.accounts.get(act_name) {\n                let new_act = &config.accounts[act_name];\n                if new_act.secure_eq(old_act) {"
EDITS += [
 dict(name="r-eq-scopes-len", kind="mut", ids=["C01"], edits=[(C, "            && self.scopes == other.scopes\n", "            && self.scopes.len() == other.scopes.len()\n            && self.scopes.iter().all(|x| other.scopes.contains(x))\n")]),
 dict(name="r-eq-or-secretnone", kind="mut", ids=["C01"], edits=[(C, "            && self.client_secret == other.client_secret\n", "            && (other.client_secret.is_none() || self.client_secret == other.client_secret)\n")]),
 dict(name="r-eq-self", kind="mut", ids=["C01"], edits=[(S, KEEP, "                if old_act.secure_eq(&self.config.accounts[act_name]) && new_act.name == old_act.name {")]),
 dict(name="r-keep-if-not-active", kind="mut", ids=["C01"], edits=[(S, KEEP, "                if new_act.secure_eq(old_act) || self.details.iter().any(|x| x.0 == act_name.as_str() && !matches!(x.2, TokenState::Active { .. })) {")]),
 dict(name="r-extra-refresh-retry", kind="mut", ids=["C01"], edits=[(C, "            && self.token_uri == other.token_uri\n", "            && self.token_uri == other.token_uri\n            && self.refresh_retry == other.refresh_retry\n")]),
 dict(name="r-other-entry", kind="mut", ids=["C01"], edits=[(S, "                            .find(|x| x.0 == act_name.as_str())\n                            .unwrap()\n                            .clone(),", "                            .find(|x| x.0.eq_ignore_ascii_case(act_name))\n                            .unwrap()\n                            .clone(),")]),
 dict(name="r-pending-copied", kind="mut", ids=["C01"], edits=[(S, "                    // calculation it has performed.\n                    details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));", "                    // calculation it has performed.\n                    let old = self.details.iter().find(|x| x.0 == act_name.as_str()).unwrap().2.clone();\n                    let ts = if matches!(old, TokenState::Pending { .. }) { old } else { TokenState::Empty };\n                    details.push((act_name.to_owned(), AccountId::new(self), ts));")]),
 dict(name="r-config-not-installed", kind="mut", ids=["C01"], edits=[(S, "        self.config = config;\n        self.details = details;\n        invalidated", "        if !details.is_empty() {\n            self.config = config;\n        }\n        self.details = details;\n        invalidated")]),
 dict(name="r-skip-first", kind="mut", ids=["C01"], edits=[(S, "        for act_name in config.accounts.keys() {\n            if let Some(old_act)", "        for act_name in config.accounts.keys().take(64) {\n            if let Some(old_act)")]),
 dict(name="r-skip-empty", kind="mut", ids=["C01"], edits=[(S, "        for act_name in config.accounts.keys() {\n            if let Some(old_act)", "        for act_name in config.accounts.keys() {\n            if act_name.is_empty() {\n                continue;\n            }\n            if let Some(old_act)")]),
 dict(name="r-ref-eq-early", kind="ref", edits=[(C, "        self.name == other.name\n            && self.auth_uri == other.auth_uri\n            && self.auth_uri_fields == other.auth_uri_fields\n", "        if self.name != other.name || self.auth_uri != other.auth_uri {\n            return false;\n        }\n        self.auth_uri_fields == other.auth_uri_fields\n")]),
 dict(name="r-ref-match", kind="ref", edits=[(S, NEST, "            if let Some(old_act) = self.config.accounts.get(act_name) {\n                let new_act = config.accounts.get(act_name).unwrap();\n                if old_act.secure_eq(new_act) {")]),
 dict(name="r-ref-iter-pairs", kind="ref", edits=[(S, "        for act_name in config.accounts.keys() {\n            if let Some(old_act) = self.config.accounts.get(act_name) {\n                let new_act = &config.accounts[act_name];\n", "        for (act_name, new_act) in &config.accounts {\n            if let Some(old_act) = self.config.accounts.get(act_name) {\n")]),
 dict(name="r-ref-contains", kind="ref", edits=[(S, "            if let Some(old_act) = self.config.accounts.get(act_name) {\n                let new_act = &config.accounts[act_name];\n", "            if self.config.accounts.contains_key(act_name) {\n                let old_act = &self.config.accounts[act_name];\n                let new_act = &config.accounts[act_name];\n")]),
 dict(name="r-ref-loop-find", kind="ref", edits=[(S, "                    details.push(\n                        self.details\n                            .iter()\n                            .find(|x| x.0 == act_name.as_str())\n                            .unwrap()\n                            .clone(),\n                    );", "                    let i = self.details.iter().position(|(n, _, _)| n == act_name).unwrap();\n                    details.push(self.details[i].clone());")]),
 # restore
 dict(name="r-rst-version-ge", kind="mut", ids=["C02"], edits=[(S, "        if d.version != DUMP_VERSION {", "        if d.version < DUMP_VERSION {")]),
 dict(name="r-rst-version-late", kind="mut", ids=["C02"], edits=[(S, "        if d.version != DUMP_VERSION {\n            return Err(\"Unknown dump version\".into());\n        }\n", ""), (S, "            self.details[ts_idx].2 = ts;\n        }\n\n        Ok(())", "            self.details[ts_idx].2 = ts;\n        }\n\n        if d.version != DUMP_VERSION {\n            return Err(\"Unknown dump version\".into());\n        }\n        Ok(())")]),
 dict(name="r-rst-over-active", kind="mut", ids=["C02"], edits=[(S, "                        (&TokenState::Active { .. }, _) => (),", "                        (&TokenState::Active { ref refresh_token, .. }, _) => {\n                            if refresh_token.is_none() && matches!(new_ts, TokenState::Active { .. }) {\n                                restore.insert(act_name.to_owned(), new_ts);\n                            }\n                        }")]),
 dict(name="r-rst-empty-over-pending", kind="mut", ids=["C02"], edits=[(S, "                            &TokenState::Empty | &TokenState::Pending { .. },\n                        ) => (),", "                            &TokenState::Empty | &TokenState::Pending { .. },\n                        ) => {\n                            restore.insert(act_name.to_owned(), new_ts);\n                        }")]),
 dict(name="r-rst-first-dump", kind="mut", ids=["C02"], edits=[(S, LOOKUP, "            if let Some((act_dump, ts_dump)) = d.accounts.get(act_name).or_else(|| d.accounts.values().next()) {\n                if act.secure_restorable(act_dump) {")]),
 dict(name="r-rst-any-secure", kind="mut", ids=["C02"], edits=[(S, "                if act.secure_restorable(act_dump) {", "                if act.secure_restorable(act_dump) || d.accounts.values().any(|(x, _)| act.secure_restorable(x)) {")]),
 dict(name="r-rst-position-ic", kind="mut", ids=["C02"], edits=[(S, "                .position(|(n, _, _)| n == &act_name)", "                .position(|(n, _, _)| n.eq_ignore_ascii_case(&act_name))")]),
 dict(name="r-rst-secret-opt", kind="mut", ids=["C02"], edits=[(C, "            && self.client_secret == act_dump.client_secret\n", "            && (act_dump.client_secret.is_none() || self.client_secret == act_dump.client_secret)\n")]),
 dict(name="r-rst-ref-early", kind="ref", edits=[(S, "                if act.secure_restorable(act_dump) {\n                    let new_ts = TokenState::restore(ts_dump);\n                    match (old_ts, &new_ts) {\n                        (\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                        ) => (),\n                        (\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                            &TokenState::Active { .. },\n                        ) => {\n                            restore.insert(act_name.to_owned(), new_ts);\n                        }\n                        (&TokenState::Active { .. }, _) => (),\n                    }\n                }", "                if matches!(old_ts, TokenState::Active { .. }) || !act.secure_restorable(act_dump) {\n                    continue;\n                }\n                let new_ts = TokenState::restore(ts_dump);\n                if let TokenState::Active { .. } = new_ts {\n                    restore.insert(act_name.to_owned(), new_ts);\n                }")]),
 dict(name="r-rst-ref-intoiter", kind="ref", edits=[(S, COMMIT, "        for (act_name, ts) in restore {\n")]),
 dict(name="r-rst-ref-vec", kind="ref", edits=[(S, "        let mut restore = HashMap::new();\n", "        let mut restore = Vec::new();\n"), (S, "restore.insert(act_name.to_owned(), new_ts);", "restore.push((act_name.to_owned(), new_ts));"), (S, "restore.drain()", "restore")]),
 dict(name="r-rst-ref-match-dump", kind="ref", edits=[(S, "                    match (old_ts, &new_ts) {\n                        (\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                        ) => (),\n                        (\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                            &TokenState::Active { .. },\n                        ) => {\n                            restore.insert(act_name.to_owned(), new_ts);\n                        }\n                        (&TokenState::Active { .. }, _) => (),\n                    }\n", "                    let is_act = |x: &TokenState| matches!(x, TokenState::Active { .. });\n                    if !is_act(old_ts) && is_act(&new_ts) {\n                        restore.insert(act_name.to_owned(), new_ts);\n                    }\n")]),
 dict(name="r-rst-ref-direct", kind="ref", edits=[(S, "        let mut restore = HashMap::new();\n        for (act_name, _, old_ts) in &self.details {\n            let act", "        for i in 0..self.details.len() {\n            let (act_name, _, old_ts) = &self.details[i];\n            let act"), (S, "                            restore.insert(act_name.to_owned(), new_ts);", "                            let id = AccountId::new(self);\n                            self.details[i].1 = id;\n                            self.details[i].2 = new_ts;"), (S, "        for (act_name, ts) in restore.drain() {\n            let ts_idx = self\n                .details\n                .iter()\n                .position(|(n, _, _)| n == &act_name)\n                .unwrap();\n            self.details[ts_idx].1 = AccountId::new(self);\n            self.details[ts_idx].2 = ts;\n        }\n", "")]),
]

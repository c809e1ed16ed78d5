S = "src/server/state.rs"
M = "src/server/mod.rs"
RL = "            match Config::from_path(&pstate.conf_path) {\n                Ok(new_conf) => {\n                    pstate.update_conf(new_conf);\n                    stream.write_all(b\"ok:\")?\n                }\n                Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes())?,\n            }\n            return Ok(());"
RS = "            match pstate.restore(rest.to_vec()) {\n                Ok(_) => stream.write_all(b\"ok:\")?,\n                Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes())?,\n            }\n            return Ok(());"
PUSH = "            self.details[ts_idx].1 = AccountId::new(self);\n            self.details[ts_idx].2 = ts;\n"
EDITS = [
 dict(name="a-reload-ok-on-error", kind="mut", ids=["C25"], edits=[(M, RL, RL.replace("Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes())?", "Err(e) if e.is_empty() => stream.write_all(b\"ok:\")?,\n                Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes())?"))]),
 dict(name="a-reload-silent", kind="mut", ids=["C25"], edits=[(M, RL, "            let new_conf = Config::from_path(&pstate.conf_path)?;\n            pstate.update_conf(new_conf);\n            stream.write_all(b\"ok:\")?;\n            return Ok(());")]),
 dict(name="a-reload-skips-empty", kind="mut", ids=["C25"], edits=[(M, RL, RL.replace("                    pstate.update_conf(new_conf);\n", "                    if new_conf.accounts.len() > 1 {\n                        pstate.update_conf(new_conf);\n                    }\n"))]),
 dict(name="a-reload-early-ok", kind="mut", ids=["C25"], edits=[(M, RL, RL.replace("                    pstate.update_conf(new_conf);\n                    stream.write_all(b\"ok:\")?\n", "                    stream.write_all(b\"ok:\")?;\n                    pstate.update_conf(new_conf);\n"))]),
 dict(name="a-restore-ok-on-error", kind="mut", ids=["C25"], edits=[(M, RS, RS.replace("                Ok(_) => stream", "                Err(e) if e.to_string().contains(\"version\") => stream.write_all(b\"ok:\")?,\n                Ok(_) => stream"))]),
 dict(name="a-restore-silent", kind="mut", ids=["C25"], edits=[(M, RS, "            pstate.restore(rest.to_vec())?;\n            stream.write_all(b\"ok:\")?;\n            return Ok(());")]),
 dict(name="a-restore-partial-err", kind="mut", ids=["C25"], edits=[(S, PUSH, PUSH + "            if self.account_count > 1 << 40 {\n                return Err(\"Too many accounts\".into());\n            }\n")]),
 dict(name="a-restore-partial-ok", kind="mut", ids=["C25"], edits=[(S, PUSH, PUSH + "            if self.account_count > 1 << 40 {\n                break;\n            }\n")]),
 dict(name="a-restore-skip-some", kind="mut", ids=["C25"], edits=[(S, PUSH, "            if matches!(ts, TokenState::Active { ref refresh_token, .. } if refresh_token.is_none()) {\n                continue;\n            }\n" + PUSH)]),
 dict(name="a-restore-break", kind="mut", ids=["C25"], edits=[(S, "                        (&TokenState::Active { .. }, _) => (),", "                        (&TokenState::Active { .. }, _) => break,")]),
 dict(name="a-restore-only-empty", kind="mut", ids=["C25"], edits=[(S, "                        (\n                            &TokenState::Empty | &TokenState::Pending { .. },\n                            &TokenState::Active { .. },\n                        ) => {", "                        (&TokenState::Pending { .. }, &TokenState::Active { .. }) => (),\n                        (&TokenState::Empty, &TokenState::Active { .. }) => {")]),
 dict(name="a-restore-version-after", kind="mut", ids=["C25"], edits=[(S, "        if d.version != DUMP_VERSION {\n            return Err(\"Unknown dump version\".into());\n        }\n", ""), (S, "            self.details[ts_idx].2 = ts;\n        }\n\n        Ok(())", "            self.details[ts_idx].2 = ts;\n        }\n\n        if d.version != DUMP_VERSION {\n            return Err(\"Unknown dump version\".into());\n        }\n        Ok(())")]),
 dict(name="a-ref-reload-iflet", kind="ref", edits=[(M, RL, "            let resp = match Config::from_path(&pstate.conf_path) {\n                Ok(new_conf) => {\n                    pstate.update_conf(new_conf);\n                    \"ok:\".to_owned()\n                }\n                Err(e) => format!(\"error:{e:}\"),\n            };\n            stream.write_all(resp.as_bytes())?;\n            return Ok(());")]),
 dict(name="a-ref-restore-iflet", kind="ref", edits=[(M, RS, "            if let Err(e) = pstate.restore(rest.to_vec()) {\n                stream.write_all(format!(\"error:{e:}\").as_bytes())?;\n            } else {\n                stream.write_all(b\"ok:\")?;\n            }\n            return Ok(());")]),
 dict(name="a-ref-helper", kind="ref", edits=[(M, RS, "            respond(&mut stream, pstate.restore(rest.to_vec()))?;\n            return Ok(());"), (M, "fn request(pstate: Arc<AuthenticatorState>,", "fn respond(stream: &mut UnixStream, r: Result<(), Box<dyn Error>>) -> Result<(), Box<dyn Error>> {\n    match r {\n        Ok(()) => stream.write_all(b\"ok:\")?,\n        Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes())?,\n    }\n    Ok(())\n}\n\nfn request(pstate: Arc<AuthenticatorState>,")]),
]

M="src/server/mod.rs"; S="src/server/state.rs"; R="src/server/refresher.rs"
def mut(n, ids, *ed): return dict(name="rp-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
def ref(n, *ed): return dict(name="rp-ref-"+n, kind="ref", ids="C39 C40 C11 C18 C21 C33".split(), edits=list(ed))
SCHED="                        pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);\n                        stream.write_all(b\"scheduled:\")?;"
ACTIVE='''                        if *access_token_expiry > Instant::now() {
                            format!(
                                "Active access token (obtained {}; expires {})",
                                instant_fmt(*access_token_obtained),
                                instant_fmt(*access_token_expiry)
                            )
                        } else if let Some(i) = last_refresh_attempt {'''
STATUS='''                let act = ct_lk.account(act_id);
                let st = match ct_lk.tokenstate(act_id) {
                    TokenState::Empty => "No access token".into(),
                    TokenState::Pending {
                        last_notification: Some(i),
                        ..
                    } => format!(
                        "Access token pending authentication (last notification {})",
                        instant_fmt(*i)
                    ),
                    TokenState::Pending {
                        last_notification: None,
                        ..
                    } => "Access token pending authentication".into(),
                    TokenState::Active {
                        access_token_obtained,
                        access_token_expiry,
                        last_refresh_attempt,
                        ..
                    } => {
                        if *access_token_expiry > Instant::now() {
                            format!(
                                "Active access token (obtained {}; expires {})",
                                instant_fmt(*access_token_obtained),
                                instant_fmt(*access_token_expiry)
                            )
                        } else if let Some(i) = last_refresh_attempt {
                            format!(
                                "Access token expired (last refresh attempt {})",
                                instant_fmt(*i)
                            )
                        } else {
                            "Access token expired (refresh not yet attempted)".into()
                        }
                    }
                };
                acts.push(format!("{}: {st}", act.name));
            }
            drop(ct_lk);
            acts.sort();
'''
MATCH=STATUS[STATUS.index("match ct_lk"):STATUS.index("                };\n                acts.push")]+"                }"
HELPER="/// Describe a token state for `pizauth status`.\nfn describe(ts: &TokenState) -> String {\n    "+MATCH.replace("match ct_lk.tokenstate(act_id)","match ts").replace("\n                ","\n    ")+"\n}\n\n"
SYS="/// Print a [SystemTime] as a user-readable string, or return"
EDITS=[
 mut("sched-withurl","C39",(M,SCHED,"                        if *with_url == \"withurl\" {\n                            pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);\n                        }\n                        stream.write_all(b\"scheduled:\")?;")),
 mut("show-expired","C39",(M,"                            pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);\n                            \"error:Access token has expired. Refreshing initiated\".into()","                            \"error:Access token has expired. Refreshing initiated\".into()")),
 mut("refresh-empty","C39",(M,"                    TokenState::Empty | TokenState::Pending { .. } => {\n                        let url = request_token","                    TokenState::Empty if *with_url != \"withurl\" => {\n                        drop(ct_lk);\n                        stream.write_all(b\"pending:\")?;\n                    }\n                    TokenState::Empty | TokenState::Pending { .. } => {\n                        let url = request_token")),
 mut("reload-cond","C39",(M,"                    pstate.update_conf(new_conf);\n                    stream.write_all(b\"ok:\")?","                    if pstate.http_port.is_some() || pstate.https_port.is_none() {\n                        pstate.update_conf(new_conf);\n                    }\n                    stream.write_all(b\"ok:\")?")),
 mut("restore-empty","C39",(S,"    pub fn restore(&self, d: Vec<u8>) -> Result<(), Box<dyn Error>> {\n","    pub fn restore(&self, d: Vec<u8>) -> Result<(), Box<dyn Error>> {\n        if d.len() < 16 {\n            return Ok(());\n        }\n")),
 mut("restore-warn","C39",(M,"            match pstate.restore(rest.to_vec()) {\n                Ok(_) => stream.write_all(b\"ok:\")?,\n                Err(e) => stream","            match pstate.restore(rest.to_vec()) {\n                Ok(_) => stream.write_all(b\"ok:\")?,\n                Err(e) if e.to_string().contains(\"version\") => stream.write_all(b\"ok:\")?,\n                Err(e) => stream")),
 mut("shutdown-int","C39",(M,"            raise(Signal::SIGTERM).ok();","            raise(Signal::SIGUSR1).ok();")),
 mut("shutdown-cond","C39",(M,"            raise(Signal::SIGTERM).ok();","            if pstate.ct_lock().act_ids().next().is_some() {\n                raise(Signal::SIGTERM).ok();\n            }")),
 mut("ongoing","C39",(M,"                        } else if *ongoing_refresh {","                        } else if *ongoing_refresh || access_token.is_empty() {")),
 mut("st-ge","C40",(M,ACTIVE,ACTIVE.replace("*access_token_expiry > Instant::now()","*access_token_expiry > Instant::now() || last_refresh_attempt.is_none()"))),
 mut("st-swap","C40",(M,ACTIVE,ACTIVE.replace("instant_fmt(*access_token_obtained)","instant_fmt(*X)").replace("instant_fmt(*access_token_expiry)","instant_fmt(*access_token_obtained)").replace("*X","*access_token_expiry"))),
 mut("st-obt","C40",(M,ACTIVE,ACTIVE.replace("*access_token_expiry > Instant::now()","*access_token_obtained < Instant::now()"))),
 mut("st-skip","C40",(M,"                let act = ct_lk.account(act_id);\n                let st = match","                let act = ct_lk.account(act_id);\n                if matches!(ct_lk.tokenstate(act_id), TokenState::Pending { last_notification: None, .. }) {\n                    continue;\n                }\n                let st = match")),
 mut("st-take","C40",(M,"            for act_id in ct_lk.act_ids() {\n                let act =","            for act_id in ct_lk.act_ids().take(64) {\n                let act =")),
 mut("st-dedup","C40",(M,"            acts.sort();","            acts.sort();\n            acts.truncate(100);")),
 mut("st-filter","C40",(M,"            acts.sort();","            acts.retain(|x| !x.ends_with(\"No access token\"));\n            acts.sort();")),
 mut("st-empty-pending","C40",(M,"                    TokenState::Empty => \"No access token\".into(),\n                    TokenState::Pending {\n                        last_notification: Some(i),","                    TokenState::Empty\n                    | TokenState::Pending {\n                        last_notification: None,\n                        ..\n                    } => \"No access token\".into(),\n                    TokenState::Pending {\n                        last_notification: Some(i),"),(M,"                    TokenState::Pending {\n                        last_notification: None,\n                        ..\n                    } => \"Access token pending authentication\".into(),\n","")),
 mut("st-name","C40",(M,"acts.push(format!(\"{}: {st}\", act.name));","acts.push(format!(\"{}: {st}\", act.client_id));")),
 mut("st-join","C40",(M,"format!(\"ok:{}\", acts.join(\"\\n\"))","format!(\"ok:{}\", acts.last().unwrap())")),
 mut("st-first","C40",(M,"                acts.push(format!(\"{}: {st}\", act.name));\n            }","                acts.push(format!(\"{}: {st}\", act.name));\n                if acts.len() >= 32 {\n                    break;\n                }\n            }")),
 ref("st-helper",(M,MATCH,"describe(ct_lk.tokenstate(act_id))"),(M,SYS,HELPER+SYS)),
 ref("st-collect",(M,"            let mut acts = Vec::new();\n            for act_id in ct_lk.act_ids() {\n"+STATUS[:STATUS.index("            drop(ct_lk);")],
   "            let mut acts = ct_lk\n                .act_ids()\n                .map(|act_id| format!(\"{}: {}\", ct_lk.account(act_id).name, describe(ct_lk.tokenstate(act_id))))\n                .collect::<Vec<_>>();\n"),(M,SYS,HELPER+SYS)),
 ref("st-sortunstable",(M,"            acts.sort();","            acts.sort_unstable();")),
 ref("st-write",(M,"                stream.write_all(format!(\"ok:{}\", acts.join(\"\\n\")).as_bytes())?;","                let mut out = String::from(\"ok:\");\n                out.push_str(&acts.join(\"\\n\"));\n                stream.write_all(out.as_bytes())?;")),
 ref("st-le",(M,"if *access_token_expiry > Instant::now() {","let now = Instant::now();\n                        if now < *access_token_expiry {")),
 ref("st-btree",(M,"            let mut acts = Vec::new();\n            for act_id in ct_lk","            let mut acts = Vec::with_capacity(8);\n            for act_id in ct_lk")),
 ref("refresh-resp",(M,SCHED+"\n                    }\n                }\n                return Ok(());","                        pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);\n                        let reply: &[u8] = b\"scheduled:\";\n                        stream.write_all(reply)?;\n                    }\n                }\n                return Ok(());")),
 ref("reload-fn",(M,"            match Config::from_path(&pstate.conf_path) {\n                Ok(new_conf) => {\n                    pstate.update_conf(new_conf);\n                    stream.write_all(b\"ok:\")?\n                }\n                Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes())?,\n            }\n",
   "            let response = match Config::from_path(&pstate.conf_path) {\n                Ok(new_conf) => {\n                    pstate.update_conf(new_conf);\n                    \"ok:\".to_owned()\n                }\n                Err(e) => format!(\"error:{e:}\"),\n            };\n            stream.write_all(response.as_bytes())?;\n")),
 ref("reply-fn",(M,"            match pstate.restore(rest.to_vec()) {\n                Ok(_) => stream.write_all(b\"ok:\")?,\n                Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes())?,\n            }\n","            reply(&mut stream, pstate.restore(rest.to_vec()))?;\n"),
   (M,SYS,"fn reply(stream: &mut UnixStream, r: Result<(), Box<dyn Error>>) -> std::io::Result<()> {\n    match r {\n        Ok(()) => stream.write_all(b\"ok:\"),\n        Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes()),\n    }\n}\n\n"+SYS)),
]

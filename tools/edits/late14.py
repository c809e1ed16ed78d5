M="src/server/mod.rs"; A="src/main.rs"; H="src/server/http_server.rs"; S="src/server/state.rs"
SRC=open("/repo/"+M).read()
def ref(n, *ed): return dict(name="m14-ref-"+n, kind="ref", ids=[], edits=list(ed))
REV=SRC[SRC.index("            let act_name = std::str::from_utf8(rest)?;\n            let mut ct_lk"):SRC.index('        "showtoken" => {')]
SHOW=SRC[SRC.index("                match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty => {"):SRC.index('        "shutdown" if rest.is_empty()')]
INFO=SRC[SRC.index('            m.insert(\n                "http_port"'):SRC.index("            if let Some(x) = &pstate.https_pub_key")]
EDITS=[
ref("revoke-else",(M,REV,'''            let act_name = std::str::from_utf8(rest)?;
            let mut ct_lk = pstate.ct_lock();
            let Some(act_id) = ct_lk.validate_act_name(act_name) else {
                drop(ct_lk);
                stream.write_all(format!("error:No account '{act_name:}'").as_bytes())?;
                return Ok(());
            };
            ct_lk.tokenstate_replace(act_id, TokenState::Empty);
            drop(ct_lk);
            let owned = act_name.to_owned();
            pstate.eventer.token_event(owned, TokenEvent::Revoked);
            stream.write_all(b"ok:")?;
            return Ok(());
        }
''')),
ref("show-cloned",(M,SHOW,'''                let want_url = *with_url == "withurl";
                let ts = ct_lk.tokenstate(act_id).clone();
                let response = match ts {
                    TokenState::Empty => {
                        let url = request_token(Arc::clone(&pstate), ct_lk, act_id)?;
                        format!("pending:{}", if want_url { url.as_str() } else { "" })
                    }
                    TokenState::Pending { url, .. } => {
                        drop(ct_lk);
                        format!("pending:{}", if want_url { url.as_str() } else { "" })
                    }
                    TokenState::Active {
                        access_token,
                        access_token_expiry,
                        ongoing_refresh,
                        ..
                    } => {
                        drop(ct_lk);
                        if access_token_expiry > Instant::now() {
                            format!("access_token:{access_token:}")
                        } else if ongoing_refresh {
                            "error:Access token has expired. Refreshing is in progress but has not yet succeeded".to_owned()
                        } else {
                            pstate.refresher.sched_refresh(Arc::clone(&pstate), act_id);
                            "error:Access token has expired. Refreshing initiated".to_owned()
                        }
                    }
                };
                stream.write_all(response.as_bytes())?;
                return Ok(());
            }
        }
''')),
ref("info-port-fn",(M,INFO,'''            let port = |p: Option<u16>| p.map_or_else(|| "none".to_owned(), |x| x.to_string());
            m.insert("http_port", port(pstate.http_port));
            m.insert("https_port", port(pstate.https_port));
''')),
]
by={e["name"]:e for e in EDITS}
EDITS.append(dict(name="m14-combo", kind="ref", ids=[], edits=[x for e in EDITS for x in e["edits"]]))

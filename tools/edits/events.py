N = "src/server/notifier.rs"
V = "src/server/eventer.rs"
H = "src/server/http_server.rs"
R = "src/server/refresher.rs"
S = "src/server/state.rs"
M = "src/server/mod.rs"
T = "src/server/request_token.rs"
EDITS = [
 dict(name="e-new-before-store", kind="mut", ids=["C15"], edits=[(H, "            drop(ct_lk);\n            pstate.refresher.notify_changes();\n            pstate.eventer.token_event(act_name, TokenEvent::New);", "            drop(ct_lk);\n            pstate.refresher.notify_changes();\n            if refresh_token.is_some() { pstate.eventer.token_event(act_name, TokenEvent::New); }")]),
 dict(name="e-refresh-as-new", kind="mut", ids=["C15"], edits=[(R, "pstate.eventer.token_event(act_name, TokenEvent::Refresh);", "pstate.eventer.token_event(act_name, TokenEvent::New);")]),
 dict(name="e-refresh-when-changed", kind="mut", ids=["C15"], edits=[(R, "RefreshKind::AccountOrTokenStateChanged => (),", "RefreshKind::AccountOrTokenStateChanged => pstate.eventer.token_event(act_name, TokenEvent::Invalidated),")]),
 dict(name="e-revoke-invalid-name", kind="mut", ids=["C15"], edits=[(M, "Some(act_id) => {\n                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    drop(ct_lk);\n", "Some(act_id) => {\n                    if !matches!(ct_lk.tokenstate(act_id), TokenState::Empty) { ct_lk.tokenstate_replace(act_id, TokenState::Empty); }\n                    drop(ct_lk);\n")]),
 dict(name="e-reload-only-removed", kind="mut", ids=["C15"], edits=[(S, ".filter(|x| !details.iter().any(|y| y.1 == x.1))", ".filter(|x| !details.iter().any(|y| y.0 == x.0))")]),
 dict(name="e-reload-pending-too", kind="mut", ids=["C15"], edits=[(S, ".filter(|x| matches!(x.2, TokenState::Active { .. }))", ".filter(|x| !matches!(x.2, TokenState::Empty))")]),
 dict(name="e-reload-no-events", kind="mut", ids=["C15"], edits=[(S, "for act_name in invalidated {", "for act_name in invalidated.into_iter().take(0) {")]),
 dict(name="e-reload-take1", kind="mut", ids=["C15"], edits=[(S, "for act_name in invalidated {", "for act_name in invalidated.into_iter().take(1) {")]),
 dict(name="e-reload-skipongoing", kind="mut", ids=["C15"], edits=[(S, ".filter(|x| matches!(x.2, TokenState::Active { .. }))", ".filter(|x| matches!(x.2, TokenState::Active { ongoing_refresh: false, .. }))")]),
 dict(name="e-perm-no-event", kind="mut", ids=["C15"], edits=[(R, "info!(\"Permanent refresh error for {act_name}: {msg}\");\n                                pstate\n                                    .eventer\n                                    .token_event(act_name, TokenEvent::Invalidated);", "info!(\"Permanent refresh error for {act_name}: {msg}\");")]),
 dict(name="e-ref-inv-loop", kind="ref", edits=[(S, """        let invalidated = self
            .details
            .iter()
            .filter(|x| matches!(x.2, TokenState::Active { .. }))
            .filter(|x| !details.iter().any(|y| y.1 == x.1))
            .map(|x| x.0.clone())
            .collect();
""", """        let mut invalidated = Vec::new();
        for (name, id, ts) in &self.details {
            if let TokenState::Active { .. } = ts {
                if !details.iter().any(|y: &(String, AccountId, TokenState)| y.1 == *id) {
                    invalidated.push(name.clone());
                }
            }
        }
""")]),
 dict(name="e-ref-inv-onefilter", kind="ref", edits=[(S, """            .filter(|x| matches!(x.2, TokenState::Active { .. }))
            .filter(|x| !details.iter().any(|y| y.1 == x.1))
            .map(|x| x.0.clone())
""", """            .filter(|(_, id, ts)| {
                matches!(ts, TokenState::Active { .. }) && details.iter().all(|y| y.1 != *id)
            })
            .map(|(name, _, _)| name.to_owned())
""")]),
 dict(name="e-ref-revoke-name", kind="ref", edits=[(M, "ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    drop(ct_lk);\n", "let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    let act_name = ct_lk.account(act_id).name.clone();\n                    drop(ct_lk);\n"), (M, ".token_event(act_name.to_owned(), TokenEvent::Revoked);", ".token_event(act_name, TokenEvent::Revoked);")]),
 dict(name="e-ref-foreach", kind="ref", edits=[(S, "        for act_name in invalidated {\n            self.eventer.token_event(act_name, TokenEvent::Invalidated);\n        }\n", "        invalidated\n            .into_iter()\n            .for_each(|act_name| self.eventer.token_event(act_name, TokenEvent::Invalidated));\n")]),
 dict(name="e-ref-event-before-notify", kind="ref", edits=[(R, "refresher.notify_changes();\n                                pstate.eventer.token_event(act_name, TokenEvent::Refresh);", "pstate.eventer.token_event(act_name, TokenEvent::Refresh);\n                                refresher.notify_changes();")]),
]

V = "src/server/eventer.rs"
DISP = """        match self {
            TokenEvent::Invalidated => write!(f, "token_invalidated"),
            TokenEvent::New => write!(f, "token_new"),
            TokenEvent::Refresh => write!(f, "token_refreshed"),
            TokenEvent::Revoked => write!(f, "token_revoked"),
        }
    }
}
"""
NAME = """
impl TokenEvent {
    fn name(&self) -> &'static str {
        match self {
            TokenEvent::Invalidated => "token_invalidated",
            TokenEvent::New => "token_new",
            TokenEvent::Refresh => "token_refreshed",
            TokenEvent::Revoked => "token_revoked",
        }
    }
}
"""
EDITS += [
 dict(name="ev-name-swap", kind="mut", ids=["C15"], edits=[(V, 'New => write!(f, "token_new")', 'New => write!(f, "token_refreshed")'), (V, 'Refresh => write!(f, "token_refreshed")', 'Refresh => write!(f, "token_new")')]),
 dict(name="ev-name-typo", kind="mut", ids=["C15"], edits=[(V, '"token_revoked"', '"token_revoke"')]),
 dict(name="ev-name-same", kind="mut", ids=["C15"], edits=[(V, 'TokenEvent::Revoked => write!(f, "token_revoked")', 'TokenEvent::Revoked => write!(f, "token_invalidated")')]),
 dict(name="ev-name-fn-bad", kind="mut", ids=["C15"], edits=[(V, DISP, "        f.write_str(self.name())\n    }\n}\n" + NAME.replace('New => "token_new"', 'New => "token_refreshed"'))]),
 dict(name="ev-name-direct-bad", kind="mut", ids=["C15"], edits=[(V, DISP, "        f.write_str(self.name())\n    }\n}\n" + NAME.replace('Revoked => "token_revoked"', 'Revoked => "token_invalidated"')), (V, "event.to_string()", "event.name()")]),
 dict(name="ev-ref-name-fn", kind="ref", edits=[(V, DISP, "        f.write_str(self.name())\n    }\n}\n" + NAME)]),
 dict(name="ev-ref-name-direct", kind="ref", edits=[(V, DISP, "        f.write_str(self.name())\n    }\n}\n" + NAME), (V, "event.to_string()", "event.name()")]),
 dict(name="ev-ref-name-let", kind="ref", edits=[(V, DISP, """        let s = match self {
            TokenEvent::Invalidated => "token_invalidated",
            TokenEvent::New => "token_new",
            TokenEvent::Refresh => "token_refreshed",
            TokenEvent::Revoked => "token_revoked",
        };
        write!(f, "{s}")
    }
}
"""), (V, '.env("PIZAUTH_EVENT", event.to_string())', '.env("PIZAUTH_EVENT", format!("{event}"))')]),
]

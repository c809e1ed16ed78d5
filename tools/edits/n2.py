N="src/server/notifier.rs"
V="src/server/eventer.rs"
LOOP="            for (act_name, cmd, url) in auth_cmds.into_iter() {\n"
ACT="            for act_id in ct_lk.act_ids().collect::<Vec<_>>() {\n                if let TokenState::Pending {"
DUE='''                    if let Some(t) = last_notification {
                        if let Some(t) = t.checked_add(notify_interval) {
                            if t > now {
                                continue;
                            }
                        }
                    }
'''
EDITS=[
 dict(name="n2-mut-take", kind="mut", ids=["C29"], edits=[(N, LOOP, LOOP.replace("into_iter()", "into_iter().take(8)"))]),
 dict(name="n2-mut-take-acts", kind="mut", ids=["C29"], edits=[(N, ACT, ACT.replace("collect::<", "take(16).collect::<"))]),
 dict(name="n2-mut-skip", kind="mut", ids=["C29"], edits=[(N, LOOP, LOOP + "                if url.as_str().len() > 2000 {\n                    continue;\n                }\n")]),
 dict(name="n2-mut-break", kind="mut", ids=["C29"], edits=[(N, LOOP, LOOP + "                if cmd.is_empty() {\n                    break;\n                }\n")]),
 dict(name="n2-mut-break-due", kind="mut", ids=["C29"], edits=[(N, DUE, DUE.replace("continue", "break"))]),
 dict(name="n2-mut-max", kind="mut", ids=["C29"], edits=[(N, ACT, "            let mut n = 0;\n            for act_id in ct_lk.act_ids().collect::<Vec<_>>() {\n                n += 1;\n                if n > 32 {\n                    break;\n                }\n                if let TokenState::Pending {")]),
 dict(name="n2-ref-pop", kind="ref", ids=["C29"], edits=[(N, LOOP, "            auth_cmds.reverse();\n            while let Some((act_name, cmd, url)) = auth_cmds.pop() {\n")]),
 dict(name="n2-ref-iter", kind="ref", ids=["C29"], edits=[(N, LOOP, "            for x in auth_cmds {\n                let (act_name, cmd, url): (String, String, url::Url) = x;\n")]),
 dict(name="n2-ref-due-fn", kind="ref", ids=["C29"], edits=[(N, DUE, "                    let due = match last_notification {\n                        None => true,\n                        Some(t) => match t.checked_add(notify_interval) {\n                            None => true,\n                            Some(t) => t <= now,\n                        },\n                    };\n                    if !due {\n                        continue;\n                    }\n")]),
 dict(name="n2-ref-due-let", kind="ref", ids=["C29"], edits=[(N, DUE, "                    let next = last_notification.and_then(|t| t.checked_add(notify_interval));\n                    if next.is_some_and(|t| t > now) {\n                        continue;\n                    }\n")]),
 dict(name="n2-ref-act-while", kind="ref", ids=["C29"], edits=[(N, ACT, "            let ids = ct_lk.act_ids().collect::<Vec<_>>();\n            for act_id in ids.iter().copied() {\n                if let TokenState::Pending {")]),
 dict(name="n2-ref-notify-at", kind="ref", ids=["C29"], edits=[(N, "        TokenState::Pending {\n            last_notification, ..\n        } => {\n            match last_notification {\n                None => Some(Instant::now()),\n", "        TokenState::Pending {\n            last_notification: None,\n            ..\n        } => Some(Instant::now()),\n        TokenState::Pending {\n            last_notification, ..\n        } => {\n            match last_notification {\n                None => Some(Instant::now()),\n")]),
 dict(name="n2-ref-ev-batch", kind="ref", ids=["C16"], edits=[(V, '''                let (act_name, event) =
                    if let Some((act_name, event)) = self.event_queue.lock().unwrap().pop_front() {
                        (act_name, event)
                    } else {
                        break;
                    };
''', '''                let next = self.event_queue.lock().unwrap().pop_front();
                let Some((act_name, event)) = next else {
                    break;
                };
''')]),
 dict(name="n2-ref-ev-help", kind="ref", ids=["C16"], edits=[(V, '''                let (act_name, event) =
                    if let Some((act_name, event)) = self.event_queue.lock().unwrap().pop_front() {
                        (act_name, event)
                    } else {
                        break;
                    };
''', '''                let (act_name, event) = match self.next_event() {
                    Some(x) => x,
                    None => break,
                };
'''), (V, "    pub fn token_event(&self", "    fn next_event(&self) -> Option<(String, TokenEvent)> {\n        self.event_queue.lock().unwrap().pop_front()\n    }\n\n    pub fn token_event(&self")]),
 dict(name="n2-mut-ev-dedup", kind="mut", ids=["C16"], edits=[(V, "        self.event_queue.lock().unwrap().push_back((act_name, kind));\n", "        let mut q = self.event_queue.lock().unwrap();\n        q.retain(|(x, _)| x != &act_name);\n        q.push_back((act_name, kind));\n        drop(q);\n")]),
 dict(name="n2-mut-ev-cap", kind="mut", ids=["C16"], edits=[(V, "        self.event_queue.lock().unwrap().push_back((act_name, kind));\n", "        let mut q = self.event_queue.lock().unwrap();\n        if q.len() > 100 {\n            q.pop_front();\n        }\n        q.push_back((act_name, kind));\n        drop(q);\n")]),
 dict(name="n2-mut-ev-swap", kind="mut", ids=["C16"], edits=[(V, "        self.event_queue.lock().unwrap().push_back((act_name, kind));\n", "        let mut q = self.event_queue.lock().unwrap();\n        q.push_back((act_name, kind));\n        let n = q.len();\n        if n > 1 && matches!(q[n - 1].1, TokenEvent::Revoked) {\n            q.swap(n - 1, n - 2);\n        }\n        drop(q);\n")]),
]

S = "src/server/state.rs"
REPL = "        let new_id = AccountId::new(&mut self.guard);\n        self.guard.details[i].1 = new_id;\n        self.guard.details[i].2 = new_tokenstate;\n        new_id"
NEW = "        let new_id = Self {\n            id: guard.account_count,\n        };\n        guard.account_count += 1;\n        new_id"
FRESH = "                    details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));\n                }\n            } else {\n                details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));\n            }\n"
RST = "            self.details[ts_idx].1 = AccountId::new(self);\n            self.details[ts_idx].2 = ts;"
EDITS = [
 dict(name="i-replace-keeps-id", kind="mut", ids=["C04"], edits=[(S, REPL, "        self.guard.details[i].2 = new_tokenstate;\n        act_id")]),
 dict(name="i-replace-keeps-id-if-empty", kind="mut", ids=["C04"], edits=[(S, REPL, "        let new_id = if matches!(new_tokenstate, TokenState::Empty) && matches!(self.guard.details[i].2, TokenState::Empty) { act_id } else { AccountId::new(&mut self.guard) };\n        self.guard.details[i].1 = new_id;\n        self.guard.details[i].2 = new_tokenstate;\n        new_id")]),
 dict(name="i-ongoing-keeps-id", kind="mut", ids=["C04"], edits=[(S, "            ts.1 = new_id;\n            *ongoing_refresh = new_ongoing_refresh;", "            *ongoing_refresh = new_ongoing_refresh;")]),
 dict(name="i-no-bump", kind="mut", ids=["C04"], edits=[(S, "        guard.account_count += 1;\n        new_id", "        guard.account_count = guard.account_count.max(guard.details.len() as u128);\n        new_id")]),
 dict(name="i-wrap", kind="mut", ids=["C04"], edits=[(S, "        guard.account_count += 1;\n        new_id", "        guard.account_count = (guard.account_count + 1) & 0xffff;\n        new_id")]),
 dict(name="i-from-len", kind="mut", ids=["C04"], edits=[(S, "            id: guard.account_count,\n", "            id: guard.details.len() as u128 + guard.account_count,\n")]),
 dict(name="i-reload-resets-count", kind="mut", ids=["C04"], edits=[(S, "        self.config = config;\n        self.details = details;\n        invalidated", "        self.config = config;\n        self.details = details;\n        if self.details.is_empty() { self.account_count = 0; }\n        invalidated")]),
 dict(name="i-reload-changed-keeps-id", kind="mut", ids=["C04"], edits=[(S, "                    // calculation it has performed.\n                    details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));", "                    // calculation it has performed.\n                    let old = self.details.iter().find(|x| x.0 == act_name.as_str()).unwrap();\n                    details.push((act_name.to_owned(), old.1, TokenState::Empty));")]),
 dict(name="i-reload-shared-id", kind="mut", ids=["C04"], edits=[(S, "        let mut details = Vec::with_capacity(config.accounts.len());\n\n        for act_name in config.accounts.keys() {\n            if let Some", "        let mut details = Vec::with_capacity(config.accounts.len());\n        let fresh = AccountId::new(self);\n\n        for act_name in config.accounts.keys() {\n            if let Some"), (S, "            } else {\n                details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));\n            }\n", "            } else {\n                details.push((act_name.to_owned(), fresh, TokenState::Empty));\n            }\n")]),
 dict(name="i-restore-keeps-id", kind="mut", ids=["C04"], edits=[(S, RST, "            self.details[ts_idx].2 = ts;")]),
 dict(name="i-restore-keeps-id-if-pending", kind="mut", ids=["C04"], edits=[(S, RST, "            if !matches!(self.details[ts_idx].2, TokenState::Empty) { self.details[ts_idx].1 = AccountId::new(self); }\n            self.details[ts_idx].2 = ts;")]),
 dict(name="i-new-same-ids", kind="mut", ids=["C04"], edits=[(S, "            account_count,\n            config,\n            details,", "            account_count: 0,\n            config,\n            details,")]),
 dict(name="i-new-off-by-one", kind="mut", ids=["C04"], edits=[(S, "            let act_id = AccountId { id: account_count };\n            account_count += 1;", "            account_count += 1;\n            let act_id = AccountId { id: account_count };")]),
 dict(name="i-eq-truncated", kind="mut", ids=["C04"], edits=[(S, "#[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]\npub struct AccountId {", "impl PartialEq for AccountId {\n    fn eq(&self, o: &Self) -> bool {\n        self.id as u16 == o.id as u16\n    }\n}\n\n#[derive(Copy, Clone, Debug, Eq, Hash)]\npub struct AccountId {")]),
 dict(name="i-reload-rebuild", kind="mut", ids=["C04"], edits=[(S, "            let mut lk = self.locked_state.lock().unwrap();\n            lk.update_conf(new_conf)", "            let mut lk = self.locked_state.lock().unwrap();\n            if lk.details.is_empty() { *lk = LockedState::new(new_conf); Vec::new() } else { lk.update_conf(new_conf) }")]),
 dict(name="i-ref-bump-first", kind="ref", edits=[(S, NEW, "        let id = guard.account_count;\n        guard.account_count = id + 1;\n        Self { id }")]),
 dict(name="i-ref-replace-whole", kind="ref", edits=[(S, REPL, "        let new_id = AccountId::new(&mut self.guard);\n        let d = &mut self.guard.details[i];\n        d.2 = new_tokenstate;\n        d.1 = new_id;\n        new_id")]),
 dict(name="i-ref-loop", kind="ref", edits=[(S, "        self.guard\n            .details\n            .iter()\n            .find(|x| x.0 == act_name)\n            .map(|x| x.1)", "        for (name, id, _) in &self.guard.details {\n            if name == act_name {\n                return Some(*id);\n            }\n        }\n        None")]),
 dict(name="i-ref-helper", kind="ref", edits=[(S, "    pub fn tokenstate(&self, act_id: AccountId) -> &TokenState {\n        self.guard\n            .details\n            .iter()\n            .find(|x| x.1 == act_id)\n            .map(|x| &x.2)\n            .unwrap()\n    }", "    pub fn tokenstate(&self, act_id: AccountId) -> &TokenState {\n        &self.guard.details[self.index(act_id)].2\n    }\n\n    fn index(&self, act_id: AccountId) -> usize {\n        self.guard\n            .details\n            .iter()\n            .position(|x| x.1 == act_id)\n            .unwrap()\n    }")]),
 dict(name="i-ref-new-map", kind="ref", edits=[(S, "        for act_name in config.accounts.keys() {\n            let act_id = AccountId { id: account_count };\n            account_count += 1;\n            details.push((act_name.to_owned(), act_id, TokenState::Empty));\n        }\n", "        for name in config.accounts.keys() {\n            details.push((name.clone(), AccountId { id: account_count }, TokenState::Empty));\n            account_count = account_count + 1;\n        }\n")]),
 dict(name="i-ref-update-restructured", kind="ref", edits=[(S, "            if let Some(old_act) = self.config.accounts.get(act_name) {\n                let new_act = &config.accounts[act_name];\n                if new_act.secure_eq(old_act) {", "            if let Some(old_act) = self.config.accounts.get(act_name) {\n                let new_act = &config.accounts[act_name];\n                let unchanged = old_act.secure_eq(new_act);\n                if unchanged {")]),
 dict(name="i-ref-update-filter", kind="ref", edits=[(S, "            if let Some(old_act) = self.config.accounts.get(act_name) {\n                let new_act = &config.accounts[act_name];\n                if new_act.secure_eq(old_act) {\n                    // We know that `self.details` must contain `act_name` so the unwrap is safe.\n                    details.push(\n                        self.details\n                            .iter()\n                            .find(|x| x.0 == act_name.as_str())\n                            .unwrap()\n                            .clone(),\n                    );\n                } else {", "            let same = self.config.accounts.get(act_name).is_some_and(|old| config.accounts[act_name].secure_eq(old));\n            if same {\n                let old = self.details.iter().find(|(n, _, _)| n == act_name).unwrap();\n                details.push((old.0.clone(), old.1, old.2.clone()));\n            } else {"), (S, "                    // calculation it has performed.\n                    details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));\n                }\n            } else {\n                details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));\n            }\n", "                    // calculation it has performed.\n                    details.push((act_name.to_owned(), AccountId::new(self), TokenState::Empty));\n                }\n")]),
 dict(name="i-ref-restore-onephase", kind="ref", edits=[(S, "        for (act_name, ts) in restore.drain() {\n            let ts_idx = self\n                .details\n                .iter()\n                .position(|(n, _, _)| n == &act_name)\n                .unwrap();\n" + RST + "\n        }", "        for i in 0..self.details.len() {\n            if let Some(ts) = restore.remove(&self.details[i].0) {\n                let id = AccountId::new(self);\n                let d = &mut self.details[i];\n                d.1 = id;\n                d.2 = ts;\n            }\n        }")]),
]

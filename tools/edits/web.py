H="src/server/http_server.rs"; M="src/server/mod.rs"
def mut(n, ids, *ed): return dict(name="w-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
def ref(n, *ed): return dict(name="w-ref-"+n, kind="ref", ids="C41 C42 C30 C35 C27 C07".split(), edits=list(ed))
F200='''fn http_200<T: Read + Write>(mut stream: T, body: &str) {
    stream
        .write_all(
            format!("HTTP/1.1 200 OK\\r\\n\\r\\n<html><body><h2>{body}</h2></body></html>").as_bytes(),
        )
        .ok();
}
'''
HEX='''        x.key_pair
            .public_key_raw()
            .iter()
            .map(|x| format!("{x:02X}"))
            .collect::<Vec<_>>()
            .join(":")'''
NOST='''            http_200(
                stream,
                "No pending token matches request state: request a fresh token",
            );'''
PROC='''    http_200(
        stream,
        "pizauth processing authentication: you can safely close this page.",
    );
'''
ERR='''        drop(ct_lk);
        http_400(stream);
        pstate.notifier'''
EDITS=[
 mut("reflect-state","C42",(H,NOST,NOST.replace('"No pending token matches request state: request a fresh token"','&format!("No pending token matches request state {state}: request a fresh token")'))),
 mut("account-name","C42",(H,"    let token_uri = act.token_uri.clone();","    let token_uri = act.token_uri.clone();\n    let act_name = act.name.clone();"),(H,PROC,PROC.replace('"pizauth processing authentication: you can safely close this page."','&format!("pizauth processing authentication for {act_name}: you can safely close this page.")'))),
 mut("late-200","C42",(H,PROC,""),(H,"    let parsed = match body {","    let parsed = match body {",) if False else (H,"    let body = match body {\n","    http_200(\n        stream,\n        \"pizauth processing authentication: you can safely close this page.\",\n    );\n    let body = match body {\n")),
 mut("no-400","C42",(H,"        Some((_, code)) => code.to_string(),\n        None => {\n            // A request without a 'code' is broken. This seems very unlikely to happen and if it\n            // does, would retrying our request from scratch improve anything?\n            drop(ct_lk);\n            http_400(stream);","        Some((_, code)) => code.to_string(),\n        None => {\n            // A request without a 'code' is broken. This seems very unlikely to happen and if it\n            // does, would retrying our request from scratch improve anything?\n            drop(ct_lk);")),
 mut("err-200","C42",(H,ERR,ERR.replace("http_400(stream)",'http_200(stream, "Authentication failed")'))),
 mut("twice","C42",(H,"        Err(_) => {\n            // If someone couldn't","        Err(e) => {\n            if e.to_string().contains(\"host\") {\n                http_404(&mut stream);\n            }\n            // If someone couldn't")),
 mut("crlf","C42",(H,'stream.write_all(b"HTTP/1.1 404\\r\\n\\r\\n").ok();','stream.write_all(b"HTTP/1.1 404\\r\\n").ok();')),
 mut("echo-err","C42",(H,"        Err(_) => {\n            // If someone couldn't","        Err(e) => {\n            stream.write_all(format!(\"HTTP/1.1 400 {e}\\r\\n\\r\\n\").as_bytes()).ok();\n            if true { return Ok(()); }\n            // If someone couldn't")),
 mut("other-key","C41",(M,"    let pub_key_str = certified_key.as_ref().map(|x| {","    let spare = rcgen::generate_simple_self_signed(vec![\"localhost\".to_owned()])?;\n    let pub_key_str = certified_key.as_ref().map(|_| &spare).map(|x| {")),
 mut("priv-key","C41",(M,"            .public_key_raw()\n","            .serialized_der()\n")),
 mut("part-key","C41",(M,"            .public_key_raw()\n            .iter()\n","            .public_key_raw()\n            .iter()\n            .take(64)\n")),
 mut("skip-key","C41",(M,"            .public_key_raw()\n            .iter()\n","            .public_key_raw()\n            .iter()\n            .skip_while(|x| **x == 0)\n")),
 mut("store-key","C41",(H,"    // Build TLS configuration.\n","    if let Ok(d) = std::env::var(\"PIZAUTH_KEY_FILE\") {\n        std::fs::write(d, cert.key_pair.serialize_der())?;\n    }\n    // Build TLS configuration.\n")),
 mut("new-cert","C41",(H,"    // Build TLS configuration.\n","    let cert = if pstate.http_port.is_none() {\n        generate_simple_self_signed(vec![String::from(\"localhost\")])?\n    } else {\n        cert\n    };\n    // Build TLS configuration.\n")),
 ref("answer-fn",(H,F200,F200.replace("fn http_200<T: Read + Write>(mut stream: T, body: &str) {\n    stream","fn http_200<T: Read + Write>(stream: T, body: &str) {\n    answer(\n        stream,\n        &format!(\"200 OK\\r\\n\\r\\n<html><body><h2>{body}</h2></body></html>\"),\n    );\n}\n\n/// Send a response back, ignoring errors.\nfn answer<T: Read + Write>(mut stream: T, s: &str) {\n    stream").replace('format!("HTTP/1.1 200 OK\\r\\n\\r\\n<html><body><h2>{body}</h2></body></html>")','format!("HTTP/1.1 {s}")')),
    (H,'fn http_404<T: Read + Write>(mut stream: T) {\n    stream.write_all(b"HTTP/1.1 404\\r\\n\\r\\n").ok();','fn http_404<T: Read + Write>(stream: T) {\n    answer(stream, "404\\r\\n\\r\\n");'),(H,'fn http_400<T: Read + Write>(mut stream: T) {\n    stream.write_all(b"HTTP/1.1 400\\r\\n\\r\\n").ok();','fn http_400<T: Read + Write>(stream: T) {\n    answer(stream, "400\\r\\n\\r\\n");')),
 ref("two-writes",(H,F200,'''fn http_200<T: Read + Write>(mut stream: T, body: &str) {
    if stream.write_all(b"HTTP/1.1 200 OK\\r\\n\\r\\n").is_ok() {
        stream
            .write_all(format!("<html><body><h2>{body}</h2></body></html>").as_bytes())
            .ok();
    }
}
''')),
 ref("write-macro",(H,F200,'''fn http_200<T: Read + Write>(mut stream: T, body: &str) {
    write!(stream, "HTTP/1.1 200 OK\\r\\n\\r\\n<html><body><h2>{body}</h2></body></html>").ok();
}
''')),
 ref("hex-fn",(M,HEX,"        hex(&x.key_pair.public_key_raw())"),(M,"/// Print a [SystemTime] as a user-readable string, or return","/// Print bytes as colon separated hexadecimal numbers.\nfn hex(bytes: &[u8]) -> String {\n    let mut out = Vec::with_capacity(bytes.len());\n    for b in bytes {\n        out.push(format!(\"{b:02X}\"));\n    }\n    out.join(\":\")\n}\n\n/// Print a [SystemTime] as a user-readable string, or return")),
 ref("hex-match",(M,"    let pub_key_str = certified_key.as_ref().map(|x| {\n"+HEX+"\n    });","    let pub_key_str = match &certified_key {\n        Some(x) => {\n            let key = x.key_pair.public_key_raw();\n            let parts = key.iter().map(|b| format!(\"{b:02X}\")).collect::<Vec<String>>();\n            Some(parts.join(\":\"))\n        }\n        None => None,\n    };")),
 ref("tls-cfg",(H,"        .with_single_cert(\n            vec![cert.cert.into()],\n            PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(cert.key_pair.serialize_der())),\n        )","        .with_single_cert(chain, key)"),(H,"    // Build TLS configuration.\n","    let key = PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(cert.key_pair.serialize_der()));\n    let chain = vec![cert.cert.into()];\n    // Build TLS configuration.\n")),
 ref("answered-enum",(H,"    let uri = match parse_get(&mut stream, is_https) {\n        Ok(x) => x,\n        Err(_) => {","    let Ok(uri) = parse_get(&mut stream, is_https) else {\n        {") ,(H,"            http_400(stream);\n            return Ok(());\n        }\n    };\n\n    // All valid","            http_400(stream);\n            return Ok(());\n        }\n    };\n\n    // All valid")),
]
R="src/main.rs"
EDITS += [
 mut("info-label","C41",(R,'''                        svj["http_port"].as_str().unwrap(),
                        svj["https_port"].as_str().unwrap()''','''                        svj["https_port"].as_str().unwrap(),
                        svj["http_port"].as_str().unwrap()''')),
 mut("info-cut","C41",(R,'println!("  HTTPS public key: {}", x.as_str().unwrap());','println!("  HTTPS public key: {}", &x.as_str().unwrap()[..95]);')),
 mut("info-nokey","C41",(M,"            if let Some(x) = &pstate.https_pub_key {","            if let (Some(x), None) = (&pstate.https_pub_key, pstate.http_port) {")),
 mut("info-no-key2","C41",(M,'''            if let Some(x) = &pstate.https_pub_key {
                m.insert("https_pub_key", x.clone());
            }
''',"")),
 mut("info-cutkey","C41",(M,'m.insert("https_pub_key", x.clone());','m.insert("https_pub_key", x.chars().take(96).collect::<String>());')),
 ref("info-map",(M,'''            if let Some(x) = &pstate.https_pub_key {
                m.insert("https_pub_key", x.clone());
            }
            stream.write_all(json!(m).to_string().as_bytes())?;
            return Ok(());''','''            if let Some(key) = pstate.https_pub_key.as_ref() {
                let key = key.to_owned();
                m.insert("https_pub_key", key);
            }
            let reply = json!(m).to_string();
            stream.write_all(reply.as_bytes())?;
            return Ok(());''')),
 ref("info-match",(M,'''            if let Some(x) = &pstate.https_pub_key {
                m.insert("https_pub_key", x.clone());
            }
''','''            match &pstate.https_pub_key {
                Some(x) => {
                    m.insert("https_pub_key", x.to_string());
                }
                None => (),
            }
''')),
 ref("info-print",(R,'''                    println!(
                        "server running:\\n  HTTP port: {}\\n  HTTPS port: {}",
                        svj["http_port"].as_str().unwrap(),
                        svj["https_port"].as_str().unwrap()
                    );
                    if let Some(x) = svj.get("https_pub_key") {
                        println!("  HTTPS public key: {}", x.as_str().unwrap());
                    }''','''                    let http_port = svj["http_port"].as_str().unwrap();
                    let https_port = svj["https_port"].as_str().unwrap();
                    println!("server running:\\n  HTTP port: {http_port}");
                    println!("  HTTPS port: {https_port}");
                    if let Some(key) = svj.get("https_pub_key").and_then(|x| x.as_str()) {
                        println!("  HTTPS public key: {key}");
                    }''')),
]

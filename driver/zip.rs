// The byte-level compressors

// datas = hex,hex...
fn op_zipraw(job: &Job, js: &mut Js) {
    let kind = job.get("kind");
    let dig = job.int("digest", 0) == 1;
    let mut res = Vec::new();
    for d in job.get("datas").split(',') {
        let data = unhex(d);
        let mut o = Js::new();
        let mut out: Vec<u8> = Vec::new();
        let r = guarded(|| match kind {
            "dict" => crate::zip::zip_dict_encode(data.iter().cloned(), &mut out),
            _ => crate::zip::zip_back_encode(data.iter().cloned(), &mut out),
        });
        o.str("enc", enc_outcome(&r));
        if let Err(m) = &r {
            o.str("msg", m);
        }
        if enc_outcome(&r) == "ok" {
            o.num("len", out.len() as i64);
            let limit = data.len() + 16;
            let dec = zip_decode(kind, &out, limit);
            o.str("odig", &digest(&data));
            if job.int("nostream", 0) == 0 {
                o.str("stream", &hex(&out));
            }
            put_bytes(&mut o, &dec, dig);
        }
        res.push(o.finish());
    }
    js.raw("res", &format!("[{}]", res.join(",")));
}

fn zip_decode(kind: &str, stream: &[u8], limit: usize) -> Result<Vec<u8>, String> {
    guarded(|| match kind {
        "dict" => crate::zip::zip_dict_decode(stream.iter().cloned()).take(limit).collect::<Vec<u8>>(),
        _ => crate::zip::zip_back_decode(stream.iter().cloned()).take(limit).collect::<Vec<u8>>(),
    })
}

fn put_bytes(o: &mut Js, r: &Result<Vec<u8>, String>, dig: bool) {
    match r {
        Ok(b) => {
            o.str("dec", "some");
            o.num("dlen", b.len() as i64);
            o.str("ddig", &digest(b));
            if !dig {
                o.str("bytes", &hex(b));
            }
        }
        Err(m) => {
            o.str("dec", "panic");
            o.str("msg", m);
        }
    }
}

// streams = hex,hex...
fn op_zipdec(job: &Job, js: &mut Js) {
    let limit = job.int("limit", 10_000_000) as usize;
    let dig = job.int("digest", 0) == 1;
    let mut res = Vec::new();
    for d in job.get("streams").split(',') {
        let mut o = Js::new();
        let r = zip_decode(job.get("kind"), &unhex(d), limit);
        put_bytes(&mut o, &r, dig);
        res.push(o.finish());
    }
    js.raw("res", &format!("[{}]", res.join(",")));
}

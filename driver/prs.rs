// strs = hex,hex...
fn op_prs(job: &Job, js: &mut Js) {
    let mut res = Vec::new();
    for a in job.get("strs").split(',') {
        let s = String::from_utf8(unhex(a)).unwrap();
        let mut o = Js::new();
        let r = guarded(|| {
            crate::prs::fun_call(&s)
                .map(|(n, args)| (n.to_string(), args.iter().map(|a| a.to_string()).collect::<Vec<String>>()))
        });
        match r {
            Ok(Some((n, args))) => {
                o.str("out", "some");
                o.str("name", &hex(n.as_bytes()));
                let l: Vec<String> = args.iter().map(|a| quote(&hex(a.as_bytes()))).collect();
                o.raw("args", &format!("[{}]", l.join(",")));
            }
            Ok(None) => o.str("out", "none"),
            Err(m) => {
                o.str("out", "panic");
                o.str("msg", &m);
            }
        }
        res.push(o.finish());
    }
    js.raw("res", &format!("[{}]", res.join(",")));
}

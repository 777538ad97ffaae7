// The traversal of a rectangle
// dims = WxH,WxH...
fn op_hilb(job: &Job, js: &mut Js) {
    let mut res = Vec::new();
    for d in job.get("dims").split(',') {
        let (w, h) = d.split_once('x').unwrap();
        let (w, h): (usize, usize) = (w.parse().unwrap(), h.parse().unwrap());
        let mut o = Js::new();
        o.num("w", w as i64);
        o.num("h", h as i64);
        let limit = w * h + 8;
        let r = guarded(|| crate::hilbert::iter(w, h).take(limit).collect::<Vec<(usize, usize)>>());
        match r {
            Ok(v) => {
                o.str("out", "ok");
                let l: Vec<String> = v.iter().map(|(x, y)| format!("{},{}", x, y)).collect();
                o.raw("path", &format!("[{}]", l.join(",")));
            }
            Err(m) => {
                o.str("out", "panic");
                o.str("msg", &m);
            }
        }
        res.push(o.finish());
    }
    js.raw("res", &format!("[{}]", res.join(",")));
}

// The pixels visited by the linearisations of an image whose colours encode the coordinates
fn op_lin(job: &Job, js: &mut Js) {
    let mut res = Vec::new();
    for d in job.get("dims").split(',') {
        let (w, h) = d.split_once('x').unwrap();
        let (w, h): (u32, u32) = (w.parse().unwrap(), h.parse().unwrap());
        let mut o = Js::new();
        o.num("w", w as i64);
        o.num("h", h as i64);
        let img: Img = DynamicImage::ImageRgb8(ImageBuffer::from_fn(w, h, |x, y| {
            let i = y * w + x;
            image::Rgb([i as u8, (i >> 8) as u8, (i >> 16) as u8])
        }));
        let limit = (w as usize) * (h as usize) + 8;
        let dec = |p: image::Rgba<u8>| -> u32 { p.0[0] as u32 | (p.0[1] as u32) << 8 | (p.0[2] as u32) << 16 };
        for (name, k) in [("rect", 0), ("small", 1), ("large", 2)] {
            let r = guarded(|| -> Vec<u32> {
                match k {
                    0 => crate::hilbert::linearize_rect(&img).take(limit).map(dec).collect(),
                    1 => crate::hilbert::linearize_small(&img).take(limit).map(dec).collect(),
                    _ => crate::hilbert::linearize_large(&img).take(limit).map(dec).collect(),
                }
            });
            match r {
                Ok(v) => o.raw(name, &format!("{:?}", v).replace(' ', "")),
                Err(m) => o.str(&format!("{}_panic", name), &m),
            }
        }
        res.push(o.finish());
    }
    js.raw("res", &format!("[{}]", res.join(",")));
}

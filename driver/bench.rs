// The benchmark driven with a scripted codec.
//
// The pixel (0,0) of every image names it (r + 256*g).  plan = one entry per
// name: <enc><dec><size>, with enc: o (ok) e (error); dec: s (same image),
// d i z x p q (different images), n (none); size: the number of bytes "compressed" to.
// gates: a list of <name><e|x> in the order in which the encode calls (e) and
// the decode exits (x) must happen; a call whose turn hasn't come waits.

struct ScriptedCodec {
    name:     String,
    lossless: bool,
    plans:    HashMap<usize, (char, char, usize)>,
    gates:    Mutex<(Vec<(usize, char)>, usize)>,
    cond:     std::sync::Condvar,
    rally:    usize, // how many tasks leave decode together (0: none)
    rally_count: std::sync::atomic::AtomicUsize,
    rally_over:  std::sync::atomic::AtomicBool,
    log:      Mutex<Vec<(usize, char)>>,
    images:   Mutex<HashMap<usize, (u32, u32, Vec<u8>)>>,
}

impl ScriptedCodec {
    // Wait for our turn. Gives up after a while: the number of threads may not
    // allow the requested order, which isn't the codec's business
    fn gate(&self, who: usize, what: char) {
        let mut g = self.gates.lock().unwrap();
        let deadline = std::time::Instant::now() + std::time::Duration::from_millis(400);
        loop {
            let pos = g.1;
            let at = g.0[pos..].iter().position(|x| *x == (who, what)).map(|p| p + pos);
            match at {
                None => break, // not scheduled
                Some(p) if p == pos => {
                    g.1 += 1;
                    break;
                }
                Some(p) => {
                    let now = std::time::Instant::now();
                    if now >= deadline {
                        // Not an order that this run allows: let it go on freely
                        g.0.clear();
                        g.1 = 0;
                        self.cond.notify_all();
                        break;
                    }
                    g = self.cond.wait_timeout(g, deadline - now).unwrap().0;
                }
            }
        }
        self.log.lock().unwrap().push((who, what));
        drop(g);
        self.cond.notify_all();
    }

    // All the tasks leave decode together. Spinning makes this as simultaneous
    // as can be
    fn rally(&self) {
        use std::sync::atomic::Ordering::SeqCst;
        if self.rally == 0 || self.rally_over.load(SeqCst) {
            return;
        }
        self.rally_count.fetch_add(1, SeqCst);
        let deadline = std::time::Instant::now() + std::time::Duration::from_millis(300);
        loop {
            for _ in 0..1000 {
                if self.rally_count.load(SeqCst) >= self.rally {
                    return;
                }
                std::hint::spin_loop();
            }
            if self.rally_over.load(SeqCst) || std::time::Instant::now() >= deadline {
                self.rally_over.store(true, SeqCst);
                return;
            }
            std::thread::yield_now();
        }
    }
}

impl Codec for ScriptedCodec {
    fn encode<W: io::Write>(&self, img: &Img, writer: &mut W) -> io::Result<()> {
        let p = img.get_pixel(0, 0);
        let who = p.0[0] as usize + 256 * p.0[1] as usize;
        self.gate(who, 'e');
        let (w, h) = img.dimensions();
        self.images.lock().unwrap().insert(who, (w, h, rgb_bytes(img)));
        let plan = self.plans.get(&who).cloned().unwrap_or(('o', 's', 8));
        if plan.0 == 'e' {
            return Err(io::Error::new(io::ErrorKind::Other, format!("scripted encode failure of {}", who)));
        }
        let mut v = vec![0u8; plan.2.max(2)];
        v[0] = who as u8;
        v[1] = (who >> 8) as u8;
        writer.write_all(&v)
    }

    fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<Img> {
        let who = reader.next()? as usize + 256 * reader.next()? as usize;
        while reader.next().is_some() {}
        let plan = self.plans.get(&who).cloned().unwrap_or(('o', 's', 8));
        let (w, h, mut b) = self.images.lock().unwrap().get(&who).cloned()?;
        if plan.1 == 'd' {
            // One unit off in the last sample
            let n = b.len() - 1;
            b[n] = if b[n] == 0 { 1 } else { b[n] - 1 };
        }
        for i in 0..b.len() {
            match plan.1 {
                'i' => b[i] = 255 - b[i],
                'z' => b[i] = 0,
                'x' => b[i] ^= (i * 37 % 256) as u8,
                'p' => if i % 997 == 5 { b[i] ^= 1 },
                'q' => if i == b.len() / 2 { b[i] ^= 0x81 },
                _ => break,
            }
        }
        let img = DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, b).unwrap());
        self.gate(who, 'x');
        self.rally();
        if plan.1 == 'n' {
            return None;
        }
        Some(img)
    }

    fn name(&self) -> String {
        self.name.clone()
    }

    fn is_lossless(&self) -> bool {
        self.lossless
    }
}

fn op_bench(job: &Job, js: &mut Js) {
    std::env::set_current_dir(job.get("dir")).unwrap();
    let mut plans = HashMap::new();
    for p in job.get("plans").split(',').filter(|s| !s.is_empty()) {
        let (who, pl) = p.split_once(':').unwrap();
        let mut cs = pl.chars();
        let e = cs.next().unwrap();
        let d = cs.next().unwrap();
        plans.insert(who.parse().unwrap(), (e, d, cs.as_str().parse().unwrap()));
    }
    let gates: Vec<(usize, char)> = job
        .get("gates")
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| {
            let (n, k) = s.split_at(s.len() - 1);
            (n.parse().unwrap(), k.chars().next().unwrap())
        })
        .collect();
    let paths: Vec<String> = job.get("paths").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut reps = Vec::new();
    for _ in 0..job.int("reps", 1) {
        let codec = ScriptedCodec {
            name: job.get("name").to_string(),
            lossless: job.int("lossless", 1) == 1,
            plans: plans.clone(),
            gates: Mutex::new((gates.clone(), 0)),
            cond: std::sync::Condvar::new(),
            rally: job.int("rally", 0) as usize,
            rally_count: Default::default(),
            rally_over: Default::default(),
            log: Mutex::new(Vec::new()),
            images: Mutex::new(HashMap::new()),
        };
        let mut o = Js::new();
        let r = guarded(|| crate::bench::measure_all(&codec, paths.clone().into_iter()));
        o.str("out", enc_outcome(&r));
        if let Err(m) = &r {
            o.str("msg", m);
        }
        let csv = std::fs::read(format!("output/{}.csv", codec.name)).unwrap_or_else(|_| b"<missing>".to_vec());
        o.str("csv", &hex(&csv));
        let l: Vec<String> = match codec.log.lock() {
            Ok(l) => l.iter().map(|(n, k)| format!("\"{}{}\"", n, k)).collect(),
            Err(_) => Vec::new(),
        };
        o.raw("log", &format!("[{}]", l.join(",")));
        let mut pngs: Vec<String> = std::fs::read_dir("output")
            .map(|d| {
                d.filter_map(|e| e.ok())
                    .filter(|e| e.file_type().map(|t| t.is_file()).unwrap_or(false))
                    .map(|e| e.file_name().to_string_lossy().to_string())
                    .filter(|n| !n.ends_with(".csv"))
                    .collect()
            })
            .unwrap_or_default();
        pngs.sort();
        let mut p: Vec<String> = Vec::new();
        for n in pngs {
            let f = format!("output/{}", n);
            p.push(format!("[{},\"{}\"]", quote(&n), hex(&std::fs::read(&f).unwrap_or_default())));
            let _ = std::fs::remove_file(&f);
        }
        o.raw("pngs", &format!("[{}]", p.join(",")));
        o.num("gated", codec.gates.lock().map(|g| (g.1 == gates.len()) as i64).unwrap_or(0));
        reps.push(o.finish());
    }
    js.raw("reps", &format!("[{}]", reps.join(",")));
}

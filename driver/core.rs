// The verification driver: compiled into the binary of /repo when
// cfg(cniic_verif) is on (see `mod verif` in src/main.rs).
//
// It executes the jobs listed in the file $CNIIC_VERIF_JOBS, one per line, and
// appends one line of JSON per job to $CNIIC_VERIF_OUT.  It contains no oracle:
// it calls the public operations of the crate and records what they did.
// Panics are recorded as outcomes, a job that kills or hangs the process is
// identified by its "B" (begin) line.

use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::{Arc, Barrier, Mutex};
use image::{DynamicImage, GenericImageView, ImageBuffer};
use crate::codec::{AnyCodec, Codec, Img};

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn run() -> bool {
    let jobs_path = match std::env::var("CNIIC_VERIF_JOBS") {
        Ok(p) => p,
        Err(_) => return false,
    };
    let out_path = std::env::var("CNIIC_VERIF_OUT").expect("CNIIC_VERIF_OUT");

    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}: {}", loc, msg));
    }));

    let mut jobs = String::new();
    std::fs::File::open(&jobs_path).unwrap().read_to_string(&mut jobs).unwrap();
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&out_path).unwrap();
    // Jobs may move to another directory: keep absolute paths only

    // A large stack: deep (legitimate) recursion isn't what is being checked
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for line in jobs.lines() {
                if line.is_empty() {
                    continue;
                }
                let job = Job::parse(line);
                writeln!(out, "B {}", job.id).unwrap();
                out.flush().unwrap();
                let mut js = Js::new();
                js.str("id", &job.id);
                dispatch(&job, &mut js);
                writeln!(out, "{}", js.finish()).unwrap();
                out.flush().unwrap();
            }
        })
        .unwrap();
    h.join().unwrap();
    true
}

fn dispatch(job: &Job, js: &mut Js) {
    match job.op.as_str() {
        "rt" => op_rt(job, js),
        "decode" => op_decode(job, js),
        "trunc" => op_trunc(job, js),
        "fault" => op_fault(job, js),
        "concat" => op_concat(job, js),
        "hist" => op_hist(job, js),
        "arg" => op_arg(job, js),
        _ => {
            if !dispatch_parts(job, js) {
                js.str("unsupported", &job.op);
            }
        }
    }
}

#[allow(unreachable_code, unused_variables)]
fn dispatch_parts(job: &Job, js: &mut Js) -> bool {
    #[cfg(cniic_verif_zip)]
    {
        if job.op == "zipraw" { op_zipraw(job, js); return true; }
        if job.op == "zipdec" { op_zipdec(job, js); return true; }
    }
    #[cfg(cniic_verif_prs)]
    if job.op == "prs" { op_prs(job, js); return true; }
    #[cfg(cniic_verif_hilb)]
    {
        if job.op == "hilb" { op_hilb(job, js); return true; }
        if job.op == "lin" { op_lin(job, js); return true; }
    }
    #[cfg(cniic_verif_kmeans)]
    if job.op == "kmeans" { op_kmeans(job, js); return true; }
    #[cfg(cniic_verif_bench)]
    if job.op == "bench" { op_bench(job, js); return true; }
    false
}

/* Jobs and output */

pub struct Job {
    id: String,
    op: String,
    kv: HashMap<String, String>,
}

impl Job {
    fn parse(line: &str) -> Job {
        let mut it = line.split('\t');
        let id = it.next().unwrap().to_string();
        let op = it.next().unwrap().to_string();
        let mut kv = HashMap::new();
        for f in it {
            let (k, v) = f.split_once('=').unwrap();
            kv.insert(k.to_string(), v.to_string());
        }
        Job { id, op, kv }
    }
    fn get(&self, k: &str) -> &str {
        self.kv.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    fn has(&self, k: &str) -> bool {
        self.kv.contains_key(k)
    }
    fn int(&self, k: &str, default: i64) -> i64 {
        match self.kv.get(k) {
            Some(v) => v.parse().unwrap(),
            None => default,
        }
    }
}

struct Js {
    s: String,
}

impl Js {
    fn new() -> Js {
        Js { s: String::from("{") }
    }
    fn key(&mut self, k: &str) {
        if self.s.len() > 1 {
            self.s.push(',');
        }
        self.s.push_str(&format!("\"{}\":", k));
    }
    fn str(&mut self, k: &str, v: &str) {
        self.key(k);
        let q = quote(v);
        self.s.push_str(&q);
    }
    fn num(&mut self, k: &str, v: i64) {
        self.key(k);
        self.s.push_str(&v.to_string());
    }
    fn raw(&mut self, k: &str, v: &str) {
        self.key(k);
        self.s.push_str(v);
    }
    fn finish(mut self) -> String {
        self.s.push('}');
        self.s
    }
}

fn quote(v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => s.push_str(&format!("\\u{:04x}", (c as u32) & 0xffff)),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    assert!(b.len() % 2 == 0);
    let d = |c: u8| -> u8 {
        match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            _ => panic!("bad hex"),
        }
    };
    b.chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

// Two independent 64-bit FNV-1a style hashes
fn digest(b: &[u8]) -> String {
    let mut h1: u64 = 0xcbf29ce484222325;
    let mut h2: u64 = 0x9ae16a3b2f90404f;
    for x in b {
        h1 = (h1 ^ *x as u64).wrapping_mul(0x100000001b3);
        h2 = (h2.rotate_left(5) ^ *x as u64).wrapping_mul(0x9e3779b97f4a7c15);
    }
    format!("{:016x}{:016x}", h1, h2)
}

fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/* Images */

// <fmt>:<w>:<h>:<hex of the raw samples, 16-bit ones little endian>
fn parse_img(s: &str) -> Img {
    let mut it = s.splitn(4, ':');
    let fmt = it.next().unwrap();
    let w: u32 = it.next().unwrap().parse().unwrap();
    let h: u32 = it.next().unwrap().parse().unwrap();
    let data = unhex(it.next().unwrap());
    let wide = |d: &[u8]| -> Vec<u16> { d.chunks(2).map(|p| u16::from_le_bytes([p[0], p[1]])).collect() };
    match fmt {
        "rgb" => DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, data).unwrap()),
        "rgba" => DynamicImage::ImageRgba8(ImageBuffer::from_raw(w, h, data).unwrap()),
        "l" => DynamicImage::ImageLuma8(ImageBuffer::from_raw(w, h, data).unwrap()),
        "la" => DynamicImage::ImageLumaA8(ImageBuffer::from_raw(w, h, data).unwrap()),
        "rgb16" => DynamicImage::ImageRgb16(ImageBuffer::from_raw(w, h, wide(&data)).unwrap()),
        "rgba16" => DynamicImage::ImageRgba16(ImageBuffer::from_raw(w, h, wide(&data)).unwrap()),
        "l16" => DynamicImage::ImageLuma16(ImageBuffer::from_raw(w, h, wide(&data)).unwrap()),
        _ => panic!("bad image format {}", fmt),
    }
}

// The 8-bit RGB samples of an image, in raster order
fn rgb_bytes(img: &Img) -> Vec<u8> {
    let (w, h) = img.dimensions();
    let mut v = Vec::with_capacity(3 * w as usize * h as usize);
    for y in 0..h {
        for x in 0..w {
            let p = img.get_pixel(x, y);
            v.extend_from_slice(&p.0[0..3]);
        }
    }
    v
}

fn put_img(js: &mut Js, prefix: &str, img: &Img, as_digest: bool) {
    let (w, h) = img.dimensions();
    js.num(&format!("{}w", prefix), w as i64);
    js.num(&format!("{}h", prefix), h as i64);
    let b = rgb_bytes(img);
    if as_digest {
        js.str(&format!("{}dig", prefix), &digest(&b));
    }
    else {
        js.str(&format!("{}pix", prefix), &hex(&b));
    }
}

fn codec_of(job: &Job) -> Result<AnyCodec, String> {
    AnyCodec::from_str(&String::from_utf8(unhex(job.get("codec"))).unwrap()).map_err(|e| format!("{:?}", e))
}

// Counts what is pulled from it
struct Counting<I> {
    it: I,
    n: usize,
}

impl<I: Iterator<Item = u8>> Iterator for Counting<I> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let x = self.it.next();
        if x.is_some() {
            self.n += 1;
        }
        x
    }
}

fn enc_outcome<T>(r: &Result<io::Result<()>, T>) -> &'static str {
    match r {
        Ok(Ok(())) => "ok",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    }
}

fn put_dec(js: &mut Js, r: &Result<Option<Img>, String>, as_digest: bool) {
    match r {
        Ok(Some(img)) => {
            js.str("dec", "some");
            put_img(js, "d", img, as_digest);
        }
        Ok(None) => js.str("dec", "none"),
        Err(m) => {
            js.str("dec", "panic");
            js.str("decmsg", m);
        }
    }
}

/* Operations */

// Encode then decode one image
fn op_rt(job: &Job, js: &mut Js) {
    let dig = job.int("digest", 0) == 1;
    let codec = match codec_of(job) {
        Ok(c) => c,
        Err(m) => {
            js.str("enc", "nocodec");
            js.str("encmsg", &m);
            return;
        }
    };
    let img = parse_img(job.get("img"));
    put_img(js, "o", &img, dig);
    js.str("name", &codec.name());
    js.num("lossless", codec.is_lossless() as i64);
    let mut data: Vec<u8> = Vec::new();
    let r = guarded(|| codec.encode(&img, &mut data));
    js.str("enc", enc_outcome(&r));
    if let Err(m) = &r {
        js.str("encmsg", m);
    }
    if enc_outcome(&r) != "ok" {
        return;
    }
    js.num("len", data.len() as i64);
    if job.int("nostream", 0) == 0 {
        js.str("stream", &hex(&data));
    }
    let tail = unhex(job.get("tail"));
    let mut all = data.clone();
    all.extend_from_slice(&tail);
    let mut cnt = Counting { it: all.into_iter(), n: 0 };
    let d = guarded(|| codec.decode(&mut cnt));
    js.num("used", cnt.n as i64);
    put_dec(js, &d, dig);
}

// Decode a given stream
fn op_decode(job: &Job, js: &mut Js) {
    let dig = job.int("digest", 0) == 1;
    let codec = match codec_of(job) {
        Ok(c) => c,
        Err(_) => {
            js.str("dec", "nocodec");
            return;
        }
    };
    let data = unhex(job.get("stream"));
    let mut cnt = Counting { it: data.into_iter(), n: 0 };
    let d = guarded(|| codec.decode(&mut cnt));
    js.num("used", cnt.n as i64);
    put_dec(js, &d, dig);
}

// Decode the proper prefixes of the stream of an image
fn op_trunc(job: &Job, js: &mut Js) {
    let codec = match codec_of(job) {
        Ok(c) => c,
        Err(_) => {
            js.str("enc", "nocodec");
            return;
        }
    };
    let img = parse_img(job.get("img"));
    let mut data: Vec<u8> = Vec::new();
    let r = guarded(|| codec.encode(&img, &mut data));
    js.str("enc", enc_outcome(&r));
    if let Err(m) = &r {
        js.str("encmsg", m);
    }
    if enc_outcome(&r) != "ok" {
        return;
    }
    js.num("len", data.len() as i64);
    // cuts: all of them, or a selection (negative: from the end)
    let cuts: Vec<usize> = if job.get("cuts") == "all" {
        (0..data.len()).collect()
    } else {
        job.get("cuts")
            .split(',')
            .map(|c| c.parse::<i64>().unwrap())
            .map(|c| if c < 0 { data.len() as i64 + c } else { c })
            .filter(|c| *c >= 0 && *c < data.len() as i64)
            .map(|c| c as usize)
            .collect()
    };
    let mut res = String::new();
    let mut msg = String::new();
    for c in &cuts {
        let d = guarded(|| codec.decode(&mut data[0..*c].iter().cloned()));
        res.push(match d {
            Ok(Some(_)) => 'S',
            Ok(None) => 'N',
            Err(m) => {
                if msg.is_empty() {
                    msg = m;
                }
                'P'
            }
        });
    }
    js.raw("cuts", &format!("{:?}", cuts));
    js.str("res", &res);
    if !msg.is_empty() {
        js.str("msg", &msg);
    }
    js.str("stream", &hex(&data));
}

// A writer with scripted faults
struct FaultyWriter {
    accepted:  Vec<u8>,
    budget:    i64,        // bytes accepted before the failure, -1: never fails
    chunks:    Vec<usize>, // sizes accepted by successive calls (cyclic)
    intr:      usize,      // every intr-th call is interrupted (0: never)
    mode:      String,     // kind of failure
    flush_err: bool,
    calls:     usize,
    failures:  usize,
    flushes:   usize,
}

impl Write for FaultyWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.intr != 0 && self.calls % self.intr == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if !self.chunks.is_empty() {
            n = n.min(self.chunks[self.calls % self.chunks.len()]);
        }
        // "once": a failure that goes away
        if self.budget >= 0 && !(self.mode == "once" && self.failures > 0) {
            let room = self.budget as usize - self.accepted.len();
            if room == 0 {
                self.failures += 1;
                return match self.mode.as_str() {
                    "zero" => Ok(0),
                    "pipe" => Err(io::Error::from(io::ErrorKind::BrokenPipe)),
                    _ => Err(io::Error::new(io::ErrorKind::Other, "disk full")),
                };
            }
            n = n.min(room);
        }
        self.accepted.extend_from_slice(&buf[0..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        if self.flush_err {
            self.failures += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "flush"));
        }
        Ok(())
    }
}

// Encode into faulty writers: plans = budget/chunks/intr/mode/flush;...
fn op_fault(job: &Job, js: &mut Js) {
    let codec = match codec_of(job) {
        Ok(c) => c,
        Err(_) => {
            js.str("enc", "nocodec");
            return;
        }
    };
    let img = parse_img(job.get("img"));
    put_img(js, "o", &img, true);
    let mut data: Vec<u8> = Vec::new();
    let r = guarded(|| codec.encode(&img, &mut data));
    js.str("enc", enc_outcome(&r));
    if enc_outcome(&r) != "ok" {
        return;
    }
    js.num("len", data.len() as i64);
    js.str("stream", &hex(&data));
    let mut results = Vec::new();
    for plan in job.get("plans").split(';') {
        let f: Vec<&str> = plan.split('/').collect();
        let mut budget: i64 = f[0].parse().unwrap();
        if budget < -1 {
            // from the end of the undisturbed stream
            budget = (data.len() as i64 + budget + 1).max(0);
        }
        let mut w = FaultyWriter {
            accepted: Vec::new(),
            budget,
            chunks: f[1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            intr: f[2].parse().unwrap(),
            mode: f[3].to_string(),
            flush_err: f[4] == "1",
            calls: 0,
            failures: 0,
            flushes: 0,
        };
        let r = guarded(|| codec.encode(&img, &mut w));
        let mut o = Js::new();
        o.str("plan", plan);
        o.num("budget", budget);
        o.str("out", enc_outcome(&r));
        if let Err(m) = &r {
            o.str("msg", m);
        }
        o.num("n", w.accepted.len() as i64);
        o.num("failures", w.failures as i64);
        o.num("flushes", w.flushes as i64);
        o.num("same", (w.accepted.len() <= data.len() && w.accepted[..] == data[0..w.accepted.len()]) as i64);
        if job.int("bytes", 0) == 1 {
            o.str("acc", &hex(&w.accepted));
        }
        // What do the delivered bytes decode to?
        let d = guarded(|| codec.decode(&mut w.accepted.iter().cloned()));
        put_dec(&mut o, &d, true);
        results.push(o.finish());
    }
    js.raw("results", &format!("[{}]", results.join(",")));
}

// Several images into one stream, decoded one after the other
// items = codec|img;codec|img...
fn op_concat(job: &Job, js: &mut Js) {
    let mut data: Vec<u8> = Vec::new();
    let mut items = Vec::new();
    let mut parsed = Vec::new();
    for item in job.get("items").split(';') {
        let (c, i) = item.split_once('|').unwrap();
        let codec = match AnyCodec::from_str(&String::from_utf8(unhex(c)).unwrap()) {
            Ok(c) => c,
            Err(_) => {
                js.str("enc", "nocodec");
                return;
            }
        };
        parsed.push((codec, parse_img(i)));
    }
    let mut ends = Vec::new();
    for (codec, img) in &parsed {
        let r = guarded(|| codec.encode(img, &mut data));
        if enc_outcome(&r) != "ok" {
            js.str("enc", enc_outcome(&r));
            if let Err(m) = &r {
                js.str("encmsg", m);
            }
            return;
        }
        ends.push(data.len());
    }
    js.str("enc", "ok");
    data.extend_from_slice(&unhex(job.get("tail")));
    let mut cnt = Counting { it: data.into_iter(), n: 0 };
    for (k, (codec, img)) in parsed.iter().enumerate() {
        let mut o = Js::new();
        o.num("end", ends[k] as i64);
        put_img(&mut o, "o", img, true);
        o.num("lossless", codec.is_lossless() as i64);
        let d = guarded(|| codec.decode(&mut cnt));
        o.num("used", cnt.n as i64);
        put_dec(&mut o, &d, true);
        items.push(o.finish());
    }
    js.raw("items", &format!("[{}]", items.join(",")));
}

// A history of encodings and decodings on shared codec objects.
// codecs = hex;hex..., imgs = img;img..., threads = script;script...
// a script is a sequence of <codec>.<img> (encode, remember the stream, decode
// the previously remembered one too when followed by '+'), separated by ','
/// A writer that has room for some bytes
struct Brim(usize);

impl io::Write for Brim {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        let n = std::cmp::min(self.0, b.len());
        self.0 -= n;
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn op_hist(job: &Job, js: &mut Js) {
    let mut codecs = Vec::new();
    for c in job.get("codecs").split(';') {
        match AnyCodec::from_str(&String::from_utf8(unhex(c)).unwrap()) {
            Ok(c) => codecs.push(c),
            Err(_) => {
                js.str("enc", "nocodec");
                return;
            }
        }
    }
    let imgs: Vec<Img> = job.get("imgs").split(';').map(parse_img).collect();
    let mut is = Vec::new();
    for i in &imgs {
        let mut o = Js::new();
        put_img(&mut o, "o", i, true);
        is.push(o.finish());
    }
    js.raw("imgs", &format!("[{}]", is.join(",")));
    // operation, codec, image, and for those that must fail the bytes they get
    let scripts: Vec<Vec<(char, usize, usize, usize)>> = job
        .get("threads")
        .split(';')
        .map(|s| {
            s.split(',')
                .map(|o| {
                    let kind = o.chars().next().unwrap();
                    let n: Vec<usize> = o[1..].split('.').map(|x| x.parse().unwrap()).collect();
                    (kind, n[0], n[1], n.get(2).cloned().unwrap_or(0))
                })
                .collect()
        })
        .collect();
    let barrier = Arc::new(Barrier::new(scripts.len()));
    // streams by (codec, image): written by 'e' operations, read by 'd' ones
    let store: Mutex<HashMap<(usize, usize), Vec<u8>>> = Mutex::new(HashMap::new());
    let log: Mutex<Vec<String>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for (t, script) in scripts.iter().enumerate() {
            let codecs = &codecs;
            let imgs = &imgs;
            let store = &store;
            let log = &log;
            let barrier = barrier.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    barrier.wait();
                    for (kind, c, i, bytes) in script {
                        let mut o = Js::new();
                        o.num("t", t as i64);
                        o.num("c", *c as i64);
                        o.num("i", *i as i64);
                        if *kind == 'x' {
                            let mut full = Brim(*bytes);
                            let r = guarded(|| codecs[*c].encode(&imgs[*i], &mut full));
                            o.str("op", "encx");
                            o.str("out", enc_outcome(&r));
                            if let Err(m) = &r {
                                o.str("msg", m);
                            }
                        }
                        else if *kind == 'e' {
                            let mut data: Vec<u8> = Vec::new();
                            let r = guarded(|| codecs[*c].encode(&imgs[*i], &mut data));
                            o.str("op", "enc");
                            o.str("out", enc_outcome(&r));
                            if let Err(m) = &r {
                                o.str("msg", m);
                            }
                            o.num("len", data.len() as i64);
                            o.str("dig", &digest(&data));
                            store.lock().unwrap().insert((*c, *i), data);
                        }
                        else {
                            let data = store.lock().unwrap().get(&(*c, *i)).cloned();
                            let mut data = match data {
                                Some(d) => d,
                                None => continue,
                            };
                            if *kind == 't' {
                                data.truncate(*bytes);
                            }
                            o.str("op", if *kind == 't' { "dect" } else { "dec" });
                            let d = guarded(|| codecs[*c].decode(&mut data.iter().cloned()));
                            put_dec(&mut o, &d, true);
                        }
                        log.lock().unwrap().push(o.finish());
                    }
                })
                .unwrap();
        }
    });
    js.raw("log", &format!("[{}]", log.into_inner().unwrap().join(",")));
}

// Parse codec arguments: args = hex,hex...
fn op_arg(job: &Job, js: &mut Js) {
    let mut res = Vec::new();
    for a in job.get("args").split(',') {
        let s = String::from_utf8(unhex(a)).unwrap();
        let r = guarded(|| AnyCodec::from_str(&s).map(|c| (c.name(), c.is_lossless())).map_err(|_| ()));
        let mut o = Js::new();
        match r {
            Ok(Ok((n, l))) => {
                o.str("out", "ok");
                o.str("name", &n);
                o.num("lossless", l as i64);
            }
            Ok(Err(_)) => o.str("out", "err"),
            Err(m) => {
                o.str("out", "panic");
                o.str("msg", &m);
            }
        }
        res.push(o.finish());
    }
    js.raw("res", &format!("[{}]", res.join(",")));
}

// Clustering of points with integer coordinates, the mean being truncated (as
// the codecs do) or an exact floating point one. With trunc=2 the distances are
// computed as for the Voronoi cells, roundings included: points can then revolve.

struct Pt {
    id: i64, // position in the input, -1 for computed points
    c:  Vec<f64>,
    trunc: i64,
}

impl crate::geom::Distance for Pt {
    fn dist(&self, other: &Self) -> f64 {
        if self.trunc == 2 && self.c.len() == 5 {
            let sq = |i: usize| (self.c[i] - other.c[i]) * (self.c[i] - other.c[i]);
            let color = (sq(2) + sq(3) + sq(4)).sqrt();
            return (sq(0) + sq(1) + color.powi(2)).sqrt();
        }
        let mut d = 0.0;
        for (a, b) in self.c.iter().zip(other.c.iter()) {
            d += (a - b) * (a - b);
        }
        d.sqrt()
    }
}

impl crate::kmeans::Point for Pt {
    fn mean(points: &[Self]) -> Option<Self> {
        let first = points.first()?;
        let mut sum = vec![0.0; first.c.len()];
        for p in points {
            for (s, x) in sum.iter_mut().zip(p.c.iter()) {
                *s += *x;
            }
        }
        let c = sum
            .iter()
            .map(|s| {
                let m = s / points.len() as f64;
                if first.trunc > 0 { m.floor() } else { m }
            })
            .collect();
        Some(Pt { id: -1, c, trunc: first.trunc })
    }
}

// pts = x,y;x,y;...   n   trunc=0/1/2   reps
fn op_kmeans(job: &Job, js: &mut Js) {
    let n = job.int("n", 1) as usize;
    let trunc = job.int("trunc", 1);
    let pts: Vec<Vec<f64>> = job
        .get("pts")
        .split(';')
        .map(|p| p.split(',').map(|x| x.parse::<f64>().unwrap()).collect())
        .collect();
    let mut runs = Vec::new();
    let mut panics = 0;
    for _ in 0..job.int("reps", 1) {
        let input: Vec<Pt> = pts
            .iter()
            .enumerate()
            .map(|(i, c)| Pt { id: i as i64, c: c.clone(), trunc })
            .collect();
        let r = guarded(|| crate::kmeans::cluster(input, n).into_iter().collect::<Vec<(Pt, Vec<Pt>)>>());
        let mut o = Js::new();
        match r {
            Ok(groups) => {
                if job.int("countonly", 0) == 1 {
                    continue;
                }
                o.str("out", "ok");
                let g: Vec<String> = groups
                    .iter()
                    .map(|(c, m)| {
                        // the centre, times 1000 and rounded
                        let cc: Vec<String> = c.c.iter().map(|x| format!("{}", (x * 1000.0).round() as i64)).collect();
                        let mm: Vec<String> = m.iter().map(|p| (p.id + 1).to_string()).collect();
                        format!("{{\"c\":[{}],\"m\":[{}]}}", cc.join(","), mm.join(","))
                    })
                    .collect();
                o.raw("groups", &format!("[{}]", g.join(",")));
            }
            Err(m) => {
                panics += 1;
                if job.int("countonly", 0) == 1 {
                    js.kv_once("msg", &m);
                    continue;
                }
                o.str("out", "panic");
                o.str("msg", &m);
            }
        }
        runs.push(o.finish());
    }
    js.num("panics", panics);
    js.raw("runs", &format!("[{}]", runs.join(",")));
}

impl Js {
    fn kv_once(&mut self, k: &str, v: &str) {
        if !self.s.contains(&format!("\"{}\":", k)) {
            self.str(k, v);
        }
    }
}

import core, corpus, streams
from common import *
from props.c04 import run_lengths



def run(ctx):
    core.model_check(ctx, "MCRle", defs=dict(MaxLen=ctx.pick(7, 9)))
    core.model_check(ctx, "MCRle", defs=dict(Cap=2, MaxLen=ctx.pick(7, 9)))
    imgs = generated_images(ctx, maxpx=ctx.pick(5, 8)) + corpus.standard(ctx, big=False) + run_lengths(ctx)
    check_runs(ctx, [("hilbert(rle)", 0, 1)], imgs, False)
    check_runs(ctx, [("hilbert(rle(0))", 0, 1)], run_lengths(ctx)[:200], False)
    # a run at a time
    check_runs(ctx, [("hilbert(rle)", 0, 1)], corpus.vast(ctx), False, whole=True)


def check_runs(ctx, codecs, imgs, decoded, whole=False):
    check_each(ctx, [(c, dn, dd, imgs) for c, dn, dd in codecs], decoded, whole)


def check_each(ctx, groups, decoded=True, whole=False):
    spec = {c: (dn, dd) for c, dn, dd, _ in groups}
    jobs = [j for c, dn, dd, imgs in groups for j in rt_jobs([c], [(t, i, False) for t, i, _ in imgs], nostream=False)]
    res = run_codec_jobs(ctx, [j[2] for j in jobs])
    ords = traversals(ctx, [(r["ow"], r["oh"]) for r in res if "ow" in r])
    traces = []
    for (codec, tag, job), r in zip(jobs, res):
        j = dict(op="rt", codec=codec, img=job[1]["img"][:4000])
        if died(r) or r["enc"] != "ok":
            raise Violation("%s wrote no stream" % codec, dict(job=j, result=r))
        w, h = r["ow"], r["oh"]
        if (w, h) not in ords:
            continue
        head, counts, colours, tail = streams.rle_runs(bytes.fromhex(r["stream"]))
        dn, dd = spec[codec]
        more = {}
        if isinstance(dn, list):
            more = dict(lo=dn, hi=dd)
            dn = dd = 1
        if whole:
            more["whole"] = 1
        dpx = []
        if decoded:
            if r["dec"] != "some" or (r["dw"], r["dh"]) != (w, h):
                raise Violation("%s: no image of the same dimensions was decoded" % codec, dict(job=j, result=r))
            dpx = packed(r["dpix"])
        traces.append(dict(w=w, h=h, px=packed(r["opix"]), order=ords[(w, h)], head=head, counts=counts, colours=colours,
                           tail=tail, dn=dn, dd=dd, dpx=dpx, _job=j, **more))
        ctx.note("runs", len(counts))
        ctx.note("pixels", w * h)
        ctx.sample(dict(codec=codec, image=tag, pixels=w * h, runs=len(counts)))
    core.validate(ctx, "RleTrace", traces, "run-length streams", chunk=2 if whole else 4000)

"""python3-vt -m dxv.check <property>   decides one property on /repo's working tree."""
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import random
import re
import sys
import time
import traceback

from . import build, smt
from . import spec as S
from .core import Ctx, short

ROOT = build.ROOT
SOFT = {'quick': 420, 'thorough': 5400}      # after this, claims get no deep search any more
HARD = {'quick': 720, 'thorough': 10800}     # after this, the run reports what it has


def load_specs():
    from . import specs
    for m in sorted(x.name for x in pkgutil.iter_modules(specs.__path__)):
        importlib.import_module('dxv.specs.' + m)


CFG_DESC = {k: v[2] for k, v in build.CONFIGS.items()}


def tasks(prop):
    """(kind, index) units of work per configuration"""
    return S.REG.get(prop, []), S.CUSTOM.get(prop, [])


def guarded(e, ctx, rng, tier):
    try:
        yield from e.run(ctx, rng, tier)
    except Exception as ex:
        yield dict(status='inconclusive', how='error', why=f'{type(ex).__name__}: {str(ex)[:300]}\n' + traceback.format_exc()[-600:])


def worker(prop, cfg, part, nparts, seed, tier, q, soft):
    try:
        from .decide import decide
        ctx = Ctx(cfg)
        ents, customs = tasks(prop)
        jobs = [('e', e) for e in ents if e.cfgs is None or cfg in e.cfgs] + [('c', c) for c in customs if c.cfgs is None or cfg in c.cfgs]
        for k, (kind, e) in enumerate(jobs):
            if k % nparts != part:
                continue
            rng = random.Random(f'{seed}/{prop}/{e.label}')
            if kind == 'e':
                v = decide(e, ctx, rng, tier, hurry=time.time() > soft)
                rec = dict(label=v.label, name=v.name, cfg=cfg, mode=str(v.mode), status=v.status, how=v.how, why=v.why, cex=v.cex, time=round(v.time, 3),
                           ninst=v.ninst, called=sorted(short(c) for c in v.called), tv=v.tv)
                q.put(('rec', cfg, part, rec, None))
            else:
                t0 = time.time()
                for rec in guarded(e, ctx, rng, tier):
                    rec.setdefault('cfg', cfg)
                    rec.setdefault('label', e.label)
                    rec.setdefault('time', round(time.time() - t0, 3))
                    for f, d in (('name', e.label), ('mode', 'custom'), ('why', None), ('cex', None), ('ninst', 0), ('called', []), ('tv', 0)):
                        rec.setdefault(f, d)
                    q.put(('rec', cfg, part, rec, None))
                    t0 = time.time()
        st = smt.STATS
        q.put(('ok', cfg, part, None, dict(queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown, time=st.time, by=st.by)))
    except BaseException:
        q.put(('err', cfg, part, traceback.format_exc(), None))


def run_property(prop, cfgs, seed, tier):
    ents, customs = tasks(prop)
    n = len(ents) + len(customs)
    cores = os.cpu_count() or 8
    nparts = 1 if n < 12 else (2 if n < 60 else 4)
    if getattr(S, 'PARTS', {}).get(prop):
        nparts = S.PARTS[prop]
    q = mp.Queue()
    t0 = time.time()
    jobs = [(c, p) for c in cfgs for p in range(nparts)]
    live = {}
    recs, stats, errs = [], [], []
    pend = list(jobs)
    done = 0
    while done < len(jobs):
        while pend and len(live) < cores:
            c, p = pend.pop(0)
            pr = mp.Process(target=worker, args=(prop, c, p, nparts, seed, tier, q, t0 + SOFT[tier]))
            pr.start()
            live[(c, p)] = pr
        if time.time() - t0 > HARD[tier]:
            # out of time: what was decided so far is reported, the rest is listed as undecided
            for k, pr in live.items():
                pr.kill()
            seen = {(r['label'], r['cfg']) for r in recs}
            for c in cfgs:
                for e in ents + customs:
                    if (e.cfgs is None or c in e.cfgs) and (e.label, c) not in seen:
                        recs.append(dict(label=e.label, name=getattr(e, 'name', e.label), cfg=c, mode='-', status='inconclusive', how='budget', why='time budget of the run used up',
                                         cex=None, time=0, ninst=0, called=[], tv=0))
            break
        try:
            kind, c, p, out, st = q.get(timeout=2)
        except Exception:
            for k, pr in list(live.items()):
                if not pr.is_alive() and pr.exitcode not in (0, None):
                    errs.append(f'worker {k} died with {pr.exitcode}')
                    live.pop(k)
                    done += 1
            continue
        if kind == 'rec':
            recs.append(out)
            continue
        live.pop((c, p)).join()
        done += 1
        if kind == 'ok':
            stats.append(st)
        else:
            errs.append(f'{c}/{p}: {out}')
    return recs, stats, errs


def known():
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def is_known(kf, prop, r):
    for f in kf['findings']:
        if f['property'] == prop and f['label'] == r['label'] and (r['cfg'] in f['cfgs'] or f['cfgs'] == 'all'):
            lanes = f.get('lanes')
            if lanes is None or (r.get('cex') or {}).get('lane') in lanes:
                return f
    return None


def write_replay(prop, r):
    d = os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, re.sub(r'[^A-Za-z0-9_.-]+', '_', f'{prop}_{r["label"]}_{r["cfg"]}') + '.json')
    json.dump({'property': prop, 'wrapper': r['name'], 'label': r['label'], 'config': r['cfg'], 'config_desc': CFG_DESC.get(r['cfg']), 'cex': r['cex'],
               'how_to_replay': f'python3-vt -m dxv.replay {p}'}, open(p, 'w'), indent=1)
    return p


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    load_specs()
    meta = S.META.get(prop, {})
    cfgs = meta.get('cfgs', build.ALL)
    try:
        tb = build.build(cfgs)
    except build.BuildError as ex:
        print('the harness does not build against /repo: ' + str(ex))
        return 3
    recs, stats, errs = run_property(prop, cfgs, seed, tier)
    kf = known()
    viol, kn = [], []
    for r in recs:
        if r['status'] == 'violated':
            f = is_known(kf, prop, r)
            (kn if f else viol).append(r)
    inc = [r for r in recs if r['status'] == 'inconclusive']
    hold = [r for r in recs if r['status'] == 'holds']
    how = {}
    for r in hold:
        how[r['how']] = how.get(r['how'], 0) + 1
    tot = {k: sum(s[k] for s in stats) for k in ('queries', 'unsat', 'sat', 'unknown', 'time')} if stats else {}
    by = {}
    for s in stats:
        for k, x in s['by'].items():
            by[k] = by.get(k, 0) + x
    funcs = sorted({c for r in recs for c in r['called']})
    samples = [dict(claim=r['label'], config=r['cfg'], mode=r['mode'], status=r['status'], how=r['how'], seconds=r['time'], instructions=r['ninst'])
               for r in sorted(recs, key=lambda r: -r['time'])[:6]]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': f"{len(recs)} claims (public function x configuration) over {len({r['cfg'] for r in recs})} build configurations; {len(hold)} decided by the solver "
                           f"to hold for all inputs within the stated bounds, {len(viol) + len(kn)} refuted with a native replay, {len(inc)} inconclusive. "
                           f"{tot.get('queries', 0)} solver queries ({tot.get('unsat', 0)} unsat, {tot.get('sat', 0)} sat, {tot.get('unknown', 0)} unknown) in {tot.get('time', 0):.2f} s solver time.",
            'claims': len(recs), 'held': len(hold), 'decided_by': how, 'inconclusive': len(inc),
            'inconclusive_claims': [f"{r['label']}@{r['cfg']}: {r['why']}" for r in inc][:50],
            'wrappers': sorted({r['name'] for r in recs}), 'functions_encoded': funcs, 'functions_encoded_count': len(funcs),
            'ir_instructions_executed': sum(r['ninst'] for r in recs),
            'configurations': {c: CFG_DESC[c] for c in sorted({r['cfg'] for r in recs})},
            'queries': tot, 'queries_by_kind': by,
            'translation_validation_runs': sum(r['tv'] for r in recs),
            'bounds': meta.get('bounds', 'all 2^32 bit patterns of every input word (vectors, matrices, scalars), no bound on values'),
            'samples': samples, 'build_s': round(tb, 2),
        },
        'assumptions': meta.get('assumptions', []) + [
            'the encoding is produced from the LLVM IR rustc 1.99.1 emits for /repo at opt-level 1; the IR semantics of the interpreter in /verif/dxv are trusted and cross-checked against the compiled code on sampled inputs in every run',
            'x86-64 configurations only (no NEON); z3'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w'), indent=1)
    print(f"{prop}: {len(hold)} held, {len(viol)} violated, {len(kn)} known, {len(inc)} inconclusive, {len(errs)} errors; {tot.get('queries', 0)} queries {tot.get('time', 0):.1f}s solver, wall {time.time() - t0:.1f}s; {how}")
    for r in inc[:int(os.environ.get('DXV_SHOW', '12'))]:
        print(f"  INCONCLUSIVE {r['label']}@{r['cfg']}: {r['how']} {r['why']}")
    seen = set()
    for r in kn:
        f = is_known(kf, prop, r)
        if f['id'] not in seen:
            seen.add(f['id'])
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if viol:
        for r in viol[:12]:
            p = write_replay(prop, r)
            c = r['cex']
            print(f"  {r['label']} [{CFG_DESC[r['cfg']]}] input {[hex(x) for x in c['words']]} output word {c['lane']}: expected {c['expected']} got {c['got'] if c.get('got') is None or not isinstance(c['got'], int) else hex(c['got'])} {'died: ' + str(c.get('died')) if c.get('died') else ''}")
            print(f'VIOLATION property={prop} replay={p}')
        return 1
    if errs:
        for e in errs:
            print(e)
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv))

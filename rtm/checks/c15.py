"""C15 stopping rule, replayed on the history that the training returned."""
import numpy as np
from rtm import gen, train
from rtm.core import Skip
RULE = ('one case = one model, data set and scale: a long training with tolerance 0 shows the trajectory, then trainings with tolerances '
        'chosen so that the rule stops in different ways (residual; stall; stall after an interrupted stall; at the limit; not at all); '
        'a monitor automaton replays the rule on the returned history, carrying every possibility where rounding leaves a '
        'comparison open; distinct by (model, shape, ranks, scale, stop patterns); non-trivial = one training stopped early')
ASSUMPTIONS = ['objective values are recomputed from the relative residuals of the history (which C14 ties to the models) to 2e-5']
REQUIRED = ['assertions', 'stops_by_residual', 'stops_by_stall', 'stall_interrupted', 'runs_to_limit', 'stalls_unambiguous', 'rejected_steps', 'default_tolerance',
            'stops_after_training_again',
            'cp', 'ncp', 'nt', 'hooi']
REL = 2e-5


def cases(tier, rng):
    res = []
    for i in range(150 if tier == 'quick' else 2000):
        kind = ['cp', 'ncp', 'nt', 'hooi', 'ncp', 'nt'][i % 6]
        order = rng.choice([2, 3, 3, 3, 4])
        shp = train.shape_of(rng, order, mind=2) if rng.random() < 0.8 else train.shape_of(rng, order)
        res.append(dict(kind=kind, shape=shp, ranks=train.ranks_for(rng, kind, shp), seed=rng.randrange(2 ** 31),
                        gseed=rng.randrange(1, 10 ** 6), scale=rng.choice([0.01, 0.3, 1, 1, 3, 10, 30, 100, 1000]),
                        data=rng.choice(['uniform', 'uniform', 'normal', 'sparse', 'noisycp', 'lowcp_pos', 'zslice', 'sparse_mixed', 'spike']),
                        steps=rng.choice([20, 40, 60]), vi=rng.choice([-1, 3, 5]), pick=rng.randrange(10 ** 6)))
    for i in range(6 if tier == 'quick' else 60):       # thousands of entries
        res.append(train.enlarge(rng, res[i], res[i]['kind'], 20))
    return res


def lt(a, b, err):
    """possible truth values of a < b when a - b is known to +-err"""
    if a - b < -err:
        return (True,)
    if a - b > err:
        return (False,)
    return (True, False)


def replay(kind, hist, n2, tol, steps):
    """(ok, message, facts): is stopping after exactly len(hist) steps what the rule demands?"""
    obj = [0.5 * float(r) ** 2 * n2 for _, r in hist]
    momentum = kind in ('ncp', 'nt')
    facts = dict(reason=None, interrupted=False, ambiguous=0, rejected=0)
    states = {(obj[0] + 1.0, 0)}                   # (objective to compare with, consecutive small changes)
    streak = False
    for k, o in enumerate(obj):
        last = k == len(obj) - 1
        nxt, stops, contin = set(), [], False
        for o0, ns in states:
            d = abs(o - o0)
            # at the first step the difference is one, whatever the rounding of the objective (unless it is so large that 1 is lost)
            err = (REL * (o + o0) if k else 3e-7 * (o + o0)) + 1e-37
            val, verr = d / (o0 + 1), err / (o0 + 1) + 2e-6 * d / (o0 + 1) + (REL * d * o0 / (o0 + 1) ** 2)
            crits = lt(val, tol, verr + 2e-7 * tol) if tol > 0 else (False,)
            rels = lt(float(hist[k][1]), tol, 1e-6 * tol)
            if tol <= 0:
                rels = (False,)
            facts['ambiguous'] += len(crits) > 1 or len(rels) > 1
            for c in crits:
                n1 = ns + 1 if c else 0
                if ns and not c:
                    facts['interrupted'] = True
                for r in rels:
                    if r or n1 >= 3:
                        stops.append('residual' if r else 'stall')
                        continue
                    contin = True
                    if not momentum:
                        nxt.add((o, n1))
                    else:
                        acc = lt(o, o0, REL * (o + o0) + 1e-37) if k else (True,)
                        for a in acc:
                            nxt.add((o if a else o0, n1))
                        if acc == (False,):
                            facts['rejected'] += 1
        if last:
            if len(hist) < steps:
                if not stops:
                    return False, 'stopped after %d of %d steps although the rule does not stop there' % (len(hist), steps), facts
                facts['reason'] = stops[0]
            else:
                facts['reason'] = stops[0] + '_at_limit' if stops else 'limit'
        else:
            if not contin:
                return False, 'did not stop after step %d although the rule (%s) stops there' % (k + 1, stops[0]), facts
            states = nxt
            if len(states) > 4000:
                return True, 'too many possibilities', facts
    return True, '', facts


def predict(kind, hist, n2, tol):
    """smallest step count at which the rule definitely stops on this trajectory"""
    for k in range(1, len(hist)):
        ok, _, f = replay(kind, hist[:k], n2, tol, 10 ** 9)
        if ok:
            return k, f
    return None, dict(reason='limit', interrupted=False, ambiguous=0)


def run(c, ctx):
    X = train.data(dict(shape=c['shape'], kind=c['data'], seed=c['seed'], scale=c['scale']))
    kind = c['kind']
    n2 = float((X.astype(float) ** 2).sum())

    def fresh(tol, steps):
        with gen.G(c['gseed']):
            h = train.Harness(kind, X, list(c['ranks']), tol=tol, vi=c['vi'], explicit=tol is not None)
            with ctx.sut('%s build/train(%d), tol=%s' % (kind, steps, tol)):
                h.build().train(steps)
            hists = [(steps, h.hist)]
            if tol != 0.0 and r.random() < 0.5:             # the same model is trained once more, with another limit
                more = int(r.integers(1, c['steps'] + 5))
                with ctx.sut('%s train(%d) after train(%d), tol=%s' % (kind, more, steps, tol)):
                    h.train(more)
                hists.append((more, h.hist))
                ctx.ev('trained_again')
        ctx.ev('trainings', len(hists)); ctx.ev(kind)
        return hists
    r = np.random.default_rng(c['pick'])
    h0 = fresh(0.0, c['steps'])[0][1]
    ctx.check(len(h0) == c['steps'], '%s with tolerance 0 makes %d of %d steps' % (kind, len(h0), c['steps']))
    ctx.ev('runs_to_limit', len(h0) == c['steps'])
    if not all(np.isfinite(e).all() for e in np.asarray(h0, dtype=float)):
        raise Skip()
    # tolerances from the trajectory itself: between consecutive values of both stopping quantities
    obj = [0.5 * float(x) ** 2 * n2 for _, x in h0]
    qs = [abs(a - b) / (b + 1) for a, b in zip(obj[1:], obj)] + [1 / (obj[0] + 2)] + [float(x) for _, x in h0]
    qs = sorted(set(float('%.6g' % q) for q in qs if q > 1e-9))
    cand = []
    for a, b in zip(qs, qs[1:] + [qs[-1] * 1.5] if qs else []):
        if b > a * 1.002:
            t = float(np.sqrt(a * b))
            if t < 2:
                cand.append(t)
    r.shuffle(cand)
    pats = {}
    for t in cand[:24]:
        k, f = predict(kind, h0, n2, t)
        pats.setdefault((f['reason'], f['interrupted'], None if k is None else min(k, 6)), (t, k))
    chosen = list(pats.values())
    # rare patterns first
    order = sorted(pats.items(), key=lambda kv: (not kv[0][1], kv[0][0] != 'stall', r.random()))
    chosen = [v for _, v in order][:4] + [(1e-4, None)]
    seen = []
    for t, k in chosen:
        steps = c['steps'] if (k is None or r.random() < 0.8) else int(k)      # stop exactly at the limit, too
        dflt = t == 1e-4 and c['pick'] % 3 > 0         # the tolerance the constructors promise if none is given
        ctx.ev('default_tolerance', dflt)
        for i, (limit, hist) in enumerate(fresh(None if dflt else t, steps)):
            ctx.check(1 <= len(hist) <= limit, 'history of length %d for %d steps' % (len(hist), limit))
            ok, msg, f = replay(kind, hist, n2, t, limit)
            ctx.ev('steps_replayed', len(hist)); ctx.ev('ambiguous_comparisons', f['ambiguous']); ctx.ev('rejected_steps', f['rejected'])
            ctx.ev('stops_by_residual', f['reason'] == 'residual'); ctx.ev('stops_by_stall', f['reason'] == 'stall')
            ctx.ev('stalls_unambiguous', f['reason'] == 'stall' and f['ambiguous'] == 0)
            ctx.ev('stops_after_training_again', i and f['reason'] in ('residual', 'stall'))
            ctx.ev('stall_interrupted', f['interrupted']); ctx.ev('runs_to_limit', f['reason'] == 'limit')
            ctx.check(ok, '%s, tolerance %.8g%s: %s; relative residuals %s' % (kind, t, ', trained again' if i else '', msg, [float('%.7g' % x) for _, x in hist][-6:]))
            seen.append((f['reason'], f['interrupted'], len(hist)))
    if any(s[0] in ('residual', 'stall') for s in seen):
        ctx.sig(kind, c['shape'], c['ranks'], c['scale'], seen)

"""C04: scoring, sampling and inspection leave the model unchanged.

Every query function (const methods, and the scoring / sampling / proposal /
getter functions by name) is summarised path by path.  Calls to other queries
are effect free by induction; everything else is inlined.  The net effect on
non-local state must be empty: fields and containers end with the value they
had, and every temporary incorporate is matched by an unincorporate of the
same value with the same weight on the same object."""
import re
from sa import rule, models, net
from sa.interp import pp, mentions, mk_sub, n, ONE
from sa import algebra
from c02 import when_empty, impossible
from sa.net import NESTED
from sa.rule import events, islocal, rootof, STATE_OPS, Broken

RULE = ('On every path of every query function (const methods and logp*/sample*/nearest/propose*/get_*/has_* '
        'functions) the net effect on state outliving the call is empty: fields and containers end as they began and '
        'temporary additions to nested models cancel; no state-changing function is called on non-local objects.')

QNAME = re.compile(r'^(logp|logp_.*|sample|sample_corrupted|sample_at_items|nearest|propose_clean.*|get_data|get_data_r|'
                   r'get_value|get_domains|get_cluster_.*|get_emission_clusters|get_base_.*|has_.*|tables_weights.*|'
                   r'max_table|random_character|log_prob_distance|category_to_char|two_string_vote|relation_to_.*|'
                   r'cluster_or_prior_.*|prior_logp|posterior_hypers|to_txt|write_observations|to_csv|'
                   r'latent_values_incremental_logp|get_index|initialize_domain_crps|lbeta|logsumexp|log_normalize|'
                   r'choice|log_choice|sample_from_logps|linspace|log_linspace|product|topk_alignments|edit_distance|'
                   r'clusters_contains|make_new_distribution|get_relation|to_string|from_string|isnumeric|tokenize)$')
OUTPARAM = {'set', 'put', 'push', 'touch', 'clear', 'resize', 'ins', 'assign', 'vinsert', 'insrange', 'del', 'pop',
            'swap', 'merge'}


def is_query(f):
    """The model-reading interface: judged by what the function is for."""
    if f.get('ctor') or f.get('dtor') or f['name'].startswith('~') or f['name'] == (f.get('cls') or '').split('<')[0]:
        return False
    if f['name'].startswith('transition') or f['name'] in ('incorporate', 'unincorporate'):
        return False
    return bool(f.get('const')) or bool(QNAME.match(f['name']))


def main():
    C = rule.Check('C04', RULE, [
        'objects reached through different access paths are distinct unless the code makes them equal',
        'calls to functions outside the repository do not change model objects'], min_obligations=60)
    P = C.P
    done = set()
    todo = []
    conc = models.concrete(P)
    owner = {}
    for cls in conc:
        for nm in ('logp', 'logp_score', 'sample', 'nearest', 'sample_corrupted', 'propose_clean'):
            f = models.method(P, cls, nm)
            if f is not None:
                todo.append((f, cls))
                done.add(f['key'])
    for k in sorted(P.fns):
        f = P.fns[k]
        if is_query(f) and k not in done and f.get('body'):
            todo.append((f, None))
    seen = set()
    for f, cls in todo:
        sig = (f['q'], models.template(cls) if cls else None, len(f['params']))
        if (f['key'], cls) in seen:
            continue
        seen.add((f['key'], cls))
        query(C, P, f, cls)
    return C.finish()


def nested_model(P, f):
    return f['name'] in ('incorporate', 'unincorporate') and 'weight' in ''.join(p['name'] for p in f['params']) or \
        f['name'] == 'unincorporate' and (f.get('cls') or '').startswith(('Distribution<', 'Emission<'))


def query(C, P, f, cls):
    key = f['key']
    name = (models.template(cls) + '::' + f['name']) if cls else f['q']

    def opq(g):
        return g.get('key') != key and g.get('repo', True) and is_query_key(P, g)

    def opo(g, o):
        return nested_model(P, g) and o != ('this',)
    try:
        ps = C.run(f, this_cls=cls, opaque=opq, opaque_obj=opo)
    except (Broken, RecursionError) as e:
        C.unanalysed.append('%s: %s' % (name, str(e)[:100]))
        return
    bad = []
    outp = {p['name'] for p in f['params'] if is_out(P, p)}
    for p in ps:
        if p.aborted or impossible(p.decisions):
            continue
        for l, v in net.changed(p).items():
            r = rootof(l)
            if r[0] == 'p' and r[1] in outp:
                continue
            if r[0] in ('acc', 'call', 'deref') or r[0] == 'new':
                continue
            if restored(P, cls, p, l, v):
                continue
            bad.append(('%s|writes %s' % (name, lname(l)), '%s changes %s' % (name, pp(l)[:120]), p))
        for k, w in net.additive(p, NESTED + ('incorporate_to_cluster', 'unincorporate_from_cluster') +
                                 weighted(P)).items():
            if fresh(k[1], p) or chain_undone(p, k):
                continue
            bad.append(('%s|leaves %s' % (name, oname(k[1])), 'adding to or removing from %s is not undone on this path'
                        % pp(k[1])[:100], p))
        for ev, loops, conds in net.calls(p):
            q = ev[1]
            g = P.fns.get(ev[5])
            b = net.base(q)
            if b in NESTED + ('incorporate_to_cluster', 'unincorporate_from_cluster') + weighted(P):
                continue
            if g is None or is_query(g) or not g.get('cls') or ev[2] is None:
                continue
            if islocal(ev[2]) or fresh(ev[2], p):
                continue
            bad.append(('%s|calls %s' % (name, b), '%s calls the state-changing %s' % (name, q), p))
    keys = set()
    for k, m, p in bad:
        if k not in keys:
            keys.add(k)
            C.ob(False, k, m, f, p)
    if not bad:
        C.ob(True, name + ('' if len(f['params']) == 0 else '/%d' % len(f['params'])))


def is_query_key(P, g):
    f = P.fns.get(g['key'])
    return is_query(f if f is not None else g) if (f is not None or g.get('name')) else False


def is_out(P, p):
    """Parameters through which a result is returned, and the generator."""
    t = P.type(p['t'])
    if t['k'] in ('ptr', 'ref'):
        s = P.strip(p['t'])
        rec = s.get('rec', '') or ''
        if rec.startswith('std::') or s['k'] not in ('rec', 'record'):
            return True
    return False


def fresh(o, p):
    """Object created on this path."""
    if islocal(o):
        return True
    r = rootof(o)
    if r[0] == 'call' and net.base(r[1]) in ('make_new_distribution', 'get_prior'):
        return True
    return any(s and s[0] == 'call' and net.base(s[1]) in ('make_new_distribution',) for s in [o, r])


def restored(P, cls, p, l, v):
    """The final value equals the initial one as a real expression."""
    if v[0] in ('cont', 'tuple', 'list', 's', 'b', 'fill'):
        return False
    try:
        d = mk_sub(v, l)
        if cls:
            d = when_empty(P, cls, d, p)
        return algebra.is_zero_rational(algebra.Conv().conv(d))
    except (Exception,):
        return False


def weighted(P):
    """Recursive helpers that take the observation weight last."""
    out = set()
    for f in P.fns.values():
        if f['params'] and f['params'][-1]['name'] == 'weight' and f['name'] not in NESTED and not f.get('const'):
            out.add(f['name'])
    return tuple(sorted(out))


def chain_undone(p, k):
    """Sampling a sequence symbol by symbol: every appended symbol's outgoing
    transition is added exactly once before the whole sequence is removed."""
    fam = family(k[1])
    if fam is None:
        return False
    removed = None
    for ev, loops, conds in net.calls(p):
        if net.base(ev[1]) == 'unincorporate' or (net.base(ev[1]) == 'incorporate' and len(ev[3]) > 1 and
                                                  ev[3][1] == n(-1)):
            if family(ev[2]) == fam and loops:
                removed = ev
    if removed is None:
        return False

    def count(tr, strings):
        inc = psh = 0
        for ev in tr:
            if ev[0] == 'call' and net.base(ev[1]) == 'incorporate' and family(ev[2]) == fam:
                w = ev[3][1] if len(ev[3]) > 1 else ONE
                inc += 1 if w == ONE else 100
            if ev[0] == 'call' and net.base(ev[1]) == 'unincorporate' and family(ev[2]) == fam:
                inc -= 1
            if ev[0] == 'push' and ev[1] == strings:
                psh += 1
        return inc, psh
    whiles = [ev for ev in p.trace if ev[0] == 'loop' and ev[1][0] == 'while' and
              any(count(tr, None)[0] for tr, d, h in ev[2])]
    if len(whiles) != 1:
        return False
    strs = {e[1] for tr, d, h in whiles[0][2] for e in tr if e[0] == 'push'}
    if len(strs) != 1:
        return False
    st = list(strs)[0]
    i0, p0 = count(p.trace, st)
    pushed_after = [e for e in p.trace if e[0] == 'push' and e[1] == st]
    if pushed_after:
        return False
    for tr, d, how in whiles[0][2]:
        i, q = count(tr, st)
        if how in ('next', 'continue'):
            if i != q:
                return False
        elif i0 + i - q != 1:
            return False
    return True


def family(o):
    while o[0] == 'at':
        o = o[1]
    return o if o[0] == 'f' else None


def lname(l):
    while l[0] == 'at':
        l = l[1]
    return pp(l)[:60].replace(' ', '')


def oname(l):
    return lname(l)


if __name__ == '__main__':
    rule.main('C04', main)

"""C12: every relation lives in exactly the view its cluster names.

Net effects of every operation of HIRM on the schema, the name/code maps, the
relation partition, the set of views and the base links, per path, with the
partition inlined (its operations are C06) and views opaque (C11)."""
import c32
from sa import rule, writes
from sa.interp import pp, n, subterms, mentions
from sa.net import base
from sa.rule import Broken
from sa.rel import THIS, strip, fld
from sa.reg import effects, alternatives, unalt, truth, has
from c02 import impossible

RULE = ('On every path of an operation of the hierarchical model: an added relation gets an unused code recorded in both '
        'directions and is seated in the partition at the cluster whose view (made when missing) receives it, with its base '
        'taken from where the base lives now; a removed one leaves the schema, both code maps, the partition and its view, '
        'and the view is destroyed exactly when it is left empty; a moved one is taken out of every view but its new one '
        'with all its observations copied before its old home is destroyed, the partition names the new view, and every '
        'relation based on it is pointed at the copy in the new view.  Only HIRM writes these registries.')
REG = ('schema', 'irms', 'relation_to_code', 'code_to_relation', 'base_to_noisy_relations')
SCH, IRMS, R2C, C2R, B2N = [fld(THIS, x) for x in REG]
CRP = fld(THIS, 'crp')
ASG = fld(CRP, 'assignments')
TAB = fld(CRP, 'tables')
CLS = ('IRM', 'Domain', 'Distribution', 'Emission', 'CleanRelation', 'NoisyRelation', 'Relation')


class Odd(Exception):
    pass


def opaque(g):
    q = g.get('q', '')
    return q.split('::')[0] in CLS or q.startswith('CRP::') and base(q) not in ('incorporate', 'unincorporate', 'CRP') or \
        q in ('log_choice', 'choice', 'logsumexp', 'sample_from_logps', 'log_normalize')


class Sub:
    """Check that keeps only some obligations of a shared rule."""

    def __init__(self, C, keys):
        self.C, self.keys = C, keys
        self.P = C.P

    def ob(self, ok, key, msg='', where=None, path=None):
        if key.split('|')[-1] in self.keys:
            return self.C.ob(ok, key, msg, where, path)
        return ok


def main():
    C = rule.Check('C12', RULE, ['operations of one view are the obligations of C11; those of a partition C06'],
                   min_obligations=4)
    P = C.P
    W = writes.Writes(P)

    def inside(f):
        return (f.get('cls') or '') == 'HIRM'
    for x in REG:
        bad = 0
        for fk, how in sorted(W.writers('HIRM', x).items()):
            f = P.fns[fk]
            if not inside(f) and not f['q'].startswith('HIRM::') and not W.only_called_from(fk, inside):
                bad += 1
                C.ob(False, 'HIRM.%s|written by %s' % (x, f['q']), '%s changes a registry of the model directly' % f['q'],
                     (f['file'], how[0][1]))
        C.ob(not bad, 'HIRM.%s|written by the model only' % x)
    for nm, fun in (('add_relation', add), ('remove_relation', remove), ('set_cluster_assignment_gibbs', move),
                    ('transition_cluster_assignment_relation', move), ('relation_to_table', where_table),
                    ('relation_to_irm', where_view), ('get_relation', where_rel), ('incorporate', route),
                    ('unincorporate', route), ('update_base_relation', links)):
        fs = [f for f in P.fn('HIRM::' + nm) if f.get('body')]
        if not fs:
            C.unanalysed.append('no HIRM::' + nm)
        for f in fs[:1]:
            try:
                ps = [p for p in C.run(f, opaque=opaque) if not p.aborted and not impossible(p.decisions)]
                if not ps:
                    raise Odd('no path')
                fun(C, f, ps)
            except (Odd, c32.Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
                C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    f = [f for f in P.fn('HIRM::transition_cluster_assignment_relation') if f.get('body')][:1]
    for f in f:
        S = Sub(C, ('partition', 'chosen', 'view data', 'cleanup', 'fresh view'))
        try:
            for p in C.run(f, opaque=lambda g: c32.opaque(g) or g.get('q', '').split('::')[0] == 'IRM'):
                if not p.aborted and not impossible(p.decisions):
                    c32.relation(S, f, p)
        except (Odd, c32.Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
            C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    for f in [f for f in P.fn('HIRM::HIRM') if f.get('body') and f['params']][:1]:
        try:
            ps = [p for p in C.run(f, opaque=opaque) if not p.aborted and not impossible(p.decisions)]
            if not ps:
                raise Odd('no path')
            for p in ps:
                build(C, f, p)
        except (Odd, Broken, RecursionError, KeyError, IndexError, TypeError) as e:
            C.unanalysed.append('%s: %s %s' % (f['q'], type(e).__name__, str(e)[:140]))
    return C.finish()


def decs(p):
    return tuple((strip(a), b) for a, b in p.decisions)


def seat(p, rc):
    """Final cluster of code rc in the partition: a term, 'out' or None."""
    v = None
    for e in effects(p.trace):
        if e.loc == ASG and e.kind in ('put', 'ins', 'del'):
            if e.args[0] != rc:
                return 'other', e.args[0]
            v = ('in', e.args[1]) if e.kind == 'put' else ('out', None)
        elif e.loc == ASG and e.kind != 'touch':
            raise Odd('partition')
    return v


def view_of(rc, tbl=None):
    return ('at', IRMS, tbl if tbl is not None else ('at', ASG, rc))


def rel_in(view, r):
    return ('at', fld(view, 'relations'), r)


def outer(es, kind, loc):
    return [e for e in es if e.kind == kind and e.loc == loc]


# ------------------------------------------------------------------- adding --
def add(C, f, ps):
    q = f['q']
    nm, spec = [('p', x['name']) for x in f['params'][1:3]]
    for p in ps:
        D = decs(p)
        if any(a[0] == 'contains' and a[2][0] == 'f' and a[2][2] == 'base_relation' and not b for a, b in D):
            continue            # a base that is not there yet

        def ob(ok, key, msg):
            return C.ob(ok, q + '|' + key, q + ' ' + msg, f, p)

        es = list(effects(p.trace))
        s = outer(es, 'put', SCH)
        ob(len(s) == 1 and s[0].args[0] == nm and unalt(s[0].args[1]) == spec, 'schema', 'does not record the relation in the schema')
        a, b = outer(es, 'put', R2C), outer(es, 'put', C2R)
        if not ob(len(a) == 1 and len(b) == 1, 'codes', 'does not record the code of the relation in both directions'):
            continue
        rc = a[0].args[1]
        ob(a[0].args[0] == nm and b[0].args[1] == nm and b[0].args[0] == rc, 'codes', 'records codes and names that differ')
        un = unused(D, rc)
        if un is None:
            raise Odd('code ' + pp(rc)[:60])
        ob(un, 'codes', 'may give the relation a code in use: %s' % pp(rc)[:60])
        st = seat(p, rc)
        if not ob(st is not None and st[0] == 'in', 'seated', 'does not seat the code of the relation in the partition'):
            continue
        t = st[1]
        home(C, D, es, t, nm, spec, ob, True)
        lst = [e for e in es if e.loc is not None and e.loc[0] == 'at' and e.loc[1] == B2N]
        noisy = [e for e in es if e.kind == 'call' and base(e.ev[1]) == 'add_relation_with_base']
        if noisy:
            ok = len(lst) == 1 and lst[0].kind == 'push' and lst[0].args[0] == nm and base_of(lst[0].loc[2], spec) and not lst[0].loops
            ob(ok, 'base', 'does not list the noisy relation once under its base')
        else:
            ob(not lst, 'base', 'lists a clean relation under a base')


def base_of(t, spec):
    return t[0] == 'f' and t[2] == 'base_relation' and unalt(t[1]) == spec


def unused(D, rc):
    emp = truth(D, ('empty', C2R))
    if emp is None:
        emp = truth(D, ('empty', R2C))
    if rc[0] == 'n':
        return emp is True if emp is not None else False
    if emp is True:
        return True
    if rc[0] == 'size' or rc[0] == 'add' and any(x[0] == 'size' for x in rc[1] if isinstance(x, tuple) and x):
        return False        # codes are not contiguous after a removal
    if rc[0] == 'add' and n(1) in rc[1]:
        o = [x for x in rc[1] if x != n(1)]
        if len(o) == 1:
            t = o[0]
            if t[0] == 'f' and t[2] == 'first' and t[1][0] == 'fn' and t[1][1] == 'max_element' and mentions(t, C2R):
                return True
            if t[0] in ('call', 'fn') and 'max' in str(t[1]) and mentions(t, C2R):
                return True
            if t[0] == 'f' and mentions(t, C2R) and mentions(t, 'min_element'):
                return False
    if rc[0] == 'f' and rc[1][0] == 'fn' and rc[1][1] in ('max_element', 'min_element'):
        return False
    return None


def home(C, D, es, t, nm, spec, ob, first):
    """The view of cluster t gets the relation, and exists."""
    adds = [e for e in es if e.kind == 'call' and e.loc is not None and e.ev[1] in ('IRM::add_relation', 'IRM::add_relation_with_base')]
    if not ob(len(adds) == 1 and not adds[0].loops, 'home', 'adds the relation to %d views' % len(adds)):
        return None
    e = adds[0]
    v = view_of(None, t)
    exists = has(D, IRMS, t)
    new = [x for x in es if x.kind == 'put' and x.loc == IRMS]
    if exists is None:
        raise Odd('does the view exist')
    if exists:
        ob(not new, 'home', 'replaces the view of the cluster')
        ob(e.loc == v, 'home', 'adds the relation to another view than the one its cluster names')
    else:
        ok = len(new) == 1 and new[0].args[0] == t and new[0].args[1][:2] == ('new', 'IRM')
        ob(ok, 'home', 'does not make the missing view of the cluster')
        ob(e.loc == v or len(new) == 1 and e.loc == new[0].args[1], 'home', 'adds the relation to another view than the one its cluster names')
    ob(e.args[0] == nm and unalt(e.args[1]) == spec, 'home', 'adds another relation to the view')
    if e.ev[1] == 'IRM::add_relation_with_base':
        bt = unalt(e.args[2])
        ok = bt[0] == 'at' and bt[1][0] == 'f' and bt[1][2] == 'relations' and base_of(bt[2], spec)
        if ok:
            w = bt[1][1]
            rb = ('at', R2C, bt[2])
            ok = w[0] == 'at' and w[1] == IRMS and w[2] == ('at', ASG, rb)
            if not ok and (w == e.loc or w[0] == 'at' and w[1] == IRMS and mentions(w, R2C) is False):
                ok = False
            elif not ok:
                raise Odd('base taken from ' + pp(bt)[:80])
        ob(ok, 'home base', 'bases the noisy relation on another object than its base in the view it lives in')
    return e


# ----------------------------------------------------------------- removing --
def emptied(p, view, rc, cur, D, rm, exact_after=True):
    """True/False when the path knows whether the view is left empty."""
    rel = fld(view, 'relations')
    tab = ('at', TAB, cur)
    pos = decided(p)
    for a, b in D:
        if a == ('empty', rel):
            if pos.get(a, ()) > rm.pos:
                return b
            return 'early'
        if a[0] == 'eq' and ('size', rel) in a[1:]:
            o = [x for x in a[1:] if x != ('size', rel)]
            before = pos.get(a, ()) < rm.pos
            if o == [n(1)] and before or o == [n(0)] and not before:
                return b
            return 'early'
    unseat = [e.pos for e in effects(p.trace) if e.kind == 'del' and e.loc == ASG]
    for a, b in D:
        if a[0] == 'eq' and any(x[:2] == ('size', tab) for x in a[1:]):
            o = [x for x in a[1:] if x[:2] != ('size', tab)]
            x = [x for x in a[1:] if x[:2] == ('size', tab)][0]
            if o == [n(1)] and len(x) == 2:
                return b
            return 'early'
        if a[0] == 'lt' and ('size', tab) in a[1:] and n(1) in a[1:]:
            return not b if a[1] == n(1) else 'early'
    for a, b in D:
        if a == ('contains', TAB, cur) and unseat and pos.get(a, ()) > unseat[0]:
            return not b
    return None


def decided(p):
    out = {}

    def go(tr, at):
        for i, ev in enumerate(tr):
            if ev[0] == 'br':
                out.setdefault(strip(ev[1]), at + (i,))
            elif ev[0] == 'loop':
                for j, (t, d, h) in enumerate(ev[2]):
                    go(t, at + (i, j))
    go(p.trace, ())
    return out


def dropped(es, view, cur):
    d = [e for e in es if e.kind == 'del' and e.loc == IRMS]
    x = [e for e in es if e.kind == 'delete' and unalt(e.loc) == view]
    return d, x


def remove(C, f, ps):
    q = f['q']
    nm = ('p', f['params'][0]['name'])
    rc = ('at', R2C, nm)
    cur = ('at', ASG, rc)
    view = view_of(rc)
    for p in ps:
        D = decs(p)
        if any((a, not b) in D and a[0] == 'eq' and ('size', ('at', TAB, cur)) in a[1:] and n(1) in a[1:] for a, b in D):
            continue        # the cluster holds one relation for the partition and several for the model

        def ob(ok, key, msg):
            return C.ob(ok, q + '|' + key, q + ' ' + msg, f, p)

        es = list(effects(p.trace))
        for loc, k, key in ((SCH, nm, 'schema'), (R2C, nm, 'codes'), (C2R, rc, 'codes')):
            d = outer(es, 'del', loc)
            ob(len(d) == 1 and d[0].args[0] == k, key, 'does not take exactly the relation out of %s' % loc[2])
        st = seat(p, rc)
        ob(st == ('out', None), 'seated', 'does not take the code of the relation out of the partition')
        rm = [e for e in es if e.kind == 'call' and e.ev[1] == 'IRM::remove_relation']
        if not ob(len(rm) == 1 and rm[0].loc == view and rm[0].args == (nm,), 'home', 'does not take the relation out of its view'):
            continue
        empty_rule(p, es, view, rc, cur, D, rm[0], ob)
        isn = None
        for a, b in D:
            if a[0] in ('altp', 'holds') and mentions(a, ('at', SCH, nm)):
                isn = b if a[0] == 'altp' or True else None
        lst = [e for e in es if (e.kind == 'call' and e.loc is None and base(e.ev[1]) in ('erase', 'erase_if', 'remove') and e.args and
                                 e.args[0][0] == 'at' and e.args[0][1] == B2N) or
               (e.kind in ('del', 'pop') and e.loc is not None and e.loc[0] == 'at' and e.loc[1] == B2N)]
        if isn is True:
            bk = [(e.args[0] if e.kind == 'call' else e.loc)[2] for e in lst]
            ob(len(lst) == 1 and base_of(bk[0], ('at', SCH, nm)), 'base', 'does not take the noisy relation off the list of its base')
            if any(e.kind == 'pop' for e in lst):
                if any(e.loc is not None and mentions(e.loc, B2N) and e.kind in ('put', 'set', 'swap') or e.kind == 'call' and
                       any(mentions(a, B2N) for a in e.args) for e in es):
                    raise Odd('base listing')
                ob(False, 'base', 'takes whichever relation is last off the list of a base')
            if len(lst) == 1 and lst[0].kind == 'call':
                ob(lst[0].args[1] == nm, 'base', 'takes another relation off the list of a base')
        elif isn is False:
            ob(not lst, 'base', 'changes a base listing for a clean relation')
        elif not lst:
            ob(False, 'base', 'never takes a noisy relation off the list of its base')


def empty_rule(p, es, view, rc, cur, D, rm, ob):
    gone, freed = dropped(es, view, cur)
    em = emptied(p, view, rc, cur, D, rm)
    if em == 'early':
        ob(False, 'emptied', 'decides whether the view is left empty at the wrong moment')
        return
    if em is None:
        if gone or freed:
            raise Odd('when a view is destroyed')
        ob(False, 'emptied', 'never destroys an emptied view')
        return
    if em:
        ok = len(gone) == 1 and gone[0].args[0] == cur and len(freed) == 1
        ob(ok, 'emptied', 'does not both forget and destroy an emptied view')
        if ok:
            ob(freed[0].pos > rm.pos, 'emptied', 'destroys the view before the relation is out of it')
    else:
        ob(not gone and not freed, 'emptied', 'destroys a view that other relations live in')


# ------------------------------------------------------------------- moving --
def move(C, f, ps):
    q = f['q']
    r = ('p', f['params'][1]['name'])
    rc = ('at', R2C, r)
    cur = ('at', ASG, rc)
    view = view_of(rc)
    linked = set()
    for p in ps:
        D = decs(p)

        def ob(ok, key, msg):
            return C.ob(ok, q + '|' + key, q + ' ' + msg, f, p)

        es = list(effects(p.trace))
        st = seat(p, rc)
        here = stays(D, cur)
        if st is None and here is not None and not q.endswith('set_cluster_assignment_gibbs'):
            st = ('in', here)
        if not ob(st is not None and st[0] == 'in', 'seated', 'does not seat the relation in the partition again'):
            continue
        t = st[1]
        for x in (SCH, R2C, C2R, B2N):
            ob(not [e for e in es if e.kind in ('put', 'del', 'clear', 'assign', 'ins') and e.loc == x], 'kept', 'changes ' + x[2])
        if q.endswith('set_cluster_assignment_gibbs'):
            ob(t == ('p', f['params'][2]['name']), 'seated', 'seats the relation at another cluster')
            rm = [e for e in es if e.kind == 'call' and e.ev[1] == 'IRM::remove_relation']
            if not ob(len(rm) == 1 and rm[0].loc == view and rm[0].args == (r,), 'home', 'does not take the relation out of its view once'):
                continue
            empty_rule(p, es, view, rc, cur, D, rm[0], ob)
            e = home(C, D, es, t, r, ('at', SCH, r), ob, False)
            if e is not None:
                ob(e.pos > rm[0].pos, 'home', 'adds the relation before it is taken out of its old view')
                data(C, f, p, es, view, e, r, rm[0], ob)
        else:
            cleanup(p, view, cur, t, D, ob)
        relink(p, es, r, rc, t, D, ob, linked)
    if True not in linked:
        C.ob(False, q + '|relinked', q + ' never points relations based on the moved one at its new copy', f, ps[0])


def stays(D, cur):
    """The drawn destination, on a path that knows it is the current one."""
    for c, v in D:
        if v and c[0] == 'eq' and len(c) == 3 and cur in c[1:]:
            x = c[2] if c[1] == cur else c[1]
            if x != cur and any(y[0] == 'call' and base(y[1]) in ('log_choice', 'sample_from_logps') for y in subterms(x) if isinstance(y, tuple) and y):
                return x
    return None


def data(C, f, p, es, view, e, r, rm, ob):
    inc = [x for x in es if x.kind == 'call' and x.ev[1] == 'IRM::incorporate']
    if not ob(inc, 'data', 'does not bring the observations of the relation along'):
        return
    gd = [x for x in es if x.kind == 'call' and base(x.ev[1]) == 'get_data']
    for x in inc:
        k = [l for l in x.loops if l[0] == 'key' and l[2][0] == 'call' and base(l[2][1]) == 'get_data']
        if len(k) != 1 or len(x.loops) != 1:
            raise Odd('data loop')
        k = k[0]
        ob(unalt(k[2][2]) == rel_in(view, r), 'data', 'brings observations of another relation along')
        ob(x.loc == e.loc and x.args[1] == r and x.args[2] == k and unalt(x.args[3]) == ('at', k[2], k), 'data',
           'brings other observations along')
        ob(x.pos > e.pos, 'data', 'adds observations before the relation')
    if not gd:
        raise Odd('where the data comes from')
    ob(all(x.pos < rm.pos for x in gd), 'data copied', 'reads the observations of a relation that is already destroyed')
    for key, ev, alts in alternatives(p.trace, lambda k: k[0] == 'key' and k[2][0] == 'call' and base(k[2][1]) == 'get_data'):
        ob(not ev[4], 'data', 'stops before every observation is copied')
        for tr, dec, how in alts:
            ob(any(y.kind == 'call' and y.ev[1] == 'IRM::incorporate' for y in effects(tr)), 'data', 'leaves out some observations')
    for v in references(C.P, f):
        ob(False, 'data copied', 'keeps only a reference to observations (%s) of a relation it destroys' % v)


def references(P, f):
    """Local references bound to the data of a relation, used after the
    relation was removed from its view in the same block."""
    out = []

    def has_call(x, nm):
        if isinstance(x, dict):
            if x.get('name') == nm:
                return True
            return any(has_call(v, nm) for v in x.values())
        if isinstance(x, list):
            return any(has_call(v, nm) for v in x)
        return False

    def uses(x, i):
        if isinstance(x, dict):
            if x.get('k') == 'var' and x.get('id') == i:
                return True
            return any(uses(v, i) for v in x.values())
        if isinstance(x, list):
            return any(uses(v, i) for v in x)
        return False

    def blocks(x):
        if isinstance(x, dict):
            for v in x.values():
                yield from blocks(v)
        elif isinstance(x, list):
            if x and all(isinstance(y, dict) for y in x):
                yield x
            for v in x:
                yield from blocks(v)

    for b in blocks(f['body']):
        refs = []
        removed = False
        for s in b:
            if removed:
                out += [nm for i, nm in refs if uses(s, i)]
            for d in decls(s):
                t = P.types[d['t']] if 't' in d else {}
                if d.get('name') and t.get('k') in ('ref', 'lref', 'ptr', 'rref') and has_call(d, 'get_data'):
                    refs.append((d.get('id'), d['name']))
            if has_call(s, 'remove_relation'):
                removed = True
    return sorted(set(out))


def decls(s):
    if isinstance(s, dict) and s.get('k') == 'decl':
        for v in s.values():
            for d in (v if isinstance(v, list) else [v]):
                if isinstance(d, dict) and d.get('k') == 'vardecl':
                    yield d


def cleanup(p, view, cur, t, D, ob):
    """Views emptied by the move are forgotten and destroyed."""
    found = 0
    for key, ev, alts in alternatives(p.trace, lambda k: k[0] == 'key' and k[2] in (TAB, IRMS)):
        if not any(e.kind == 'call' and e.ev[1] == 'IRM::remove_relation' for tr, d, h in alts for e in effects(tr)):
            continue
        found += 1
        v = ('at', IRMS, key)
        rel = fld(v, 'relations')
        some = False
        for tr, dec, how in alts:
            sub = list(effects(tr))
            rm = [e for e in sub if e.kind == 'call' and e.ev[1] == 'IRM::remove_relation']
            gone = [e for e in sub if e.kind == 'del' and e.loc == IRMS]
            freed = [e for e in sub if e.kind == 'delete']
            em = truth(dec, ('empty', rel))
            if em is None:
                for a, b in dec:
                    if a[0] == 'eq' and ('size', rel) in a[1:] and n(0) in a[1:]:
                        em = b
                    elif a[0] == 'eq' and key in a[1:] and cur in a[1:] and (gone or freed):
                        raise Odd('which view is emptied')
            if em is None and (gone or freed):
                raise Odd('when a view is destroyed')
            if em:
                some = True
                ob(len(gone) == 1 and gone[0].args[0] == key and len(freed) == 1 and unalt(freed[0].loc) == v, 'emptied',
                   'does not both forget and destroy an emptied view')
                at = [i for i, e in enumerate(tr) if e[0] == 'br' and strip(e[1]) == ('empty', rel)]
                if rm and at:
                    ob(at[0] > rm[0].pos[0], 'emptied', 'decides whether the view is left empty before the relation is out of it')
            else:
                ob(not gone and not freed, 'emptied', 'destroys a view that relations live in')
        ob(some, 'emptied', 'never destroys an emptied view')
    if found != 1:
        raise Odd('cleanup of the views')


def relink(p, es, r, rc, t, D, ob, linked):
    sets = [e for e in es if e.kind == 'set' and e.loc[0] == 'f' and e.loc[2] == 'base_relation']
    listed = has(D, B2N, r)
    fin = [e.pos for e in es if e.kind == 'put' and e.loc == ASG]
    if not sets:
        here = stays(D, ('at', ASG, rc))
        if here is not None and here == t:
            return          # it did not move
        ok = listed is False or any(truth(D, ('empty', ('at', B2N, r))) is True for _ in (1,))
        if not ok and listed is None:
            over = [k for k, ev, alts in alternatives(p.trace, lambda k: mentions(k, B2N))]
            if over:
                raise Odd('relinking')
        ob(ok, 'relinked', 'leaves relations based on the moved one pointing at its old copy')
        return
    linked.add(True)
    for e in sets:
        k = [l for l in e.loops if l[2] == ('size', ('at', B2N, r)) or l[0] == 'key' and l[2] == ('at', B2N, r)]
        if len(k) != 1 or len(e.loops) != 1:
            raise Odd('relinking loop')
        nr = ('at', ('at', B2N, r), k[0]) if k[0][0] == 'idx' else k[0]
        if e.loc[1] == ('this',):
            raise Odd('relinking')
        o = unalt(e.loc[1])
        ok = o[0] == 'at' and o[2] == nr and o[1][0] == 'f' and o[1][2] == 'relations'
        ob(ok, 'relinked', 'points %s at the moved relation instead of each relation based on it' % pp(o)[:60])
        v = unalt(e.args[0])
        want = rel_in(view_of(None, t), r)
        if v[0] == 'at' and v[2] == r and v[1][0] == 'f' and v[1][2] == 'relations':
            w = v[1][1]
            news = [x.args[1] for x in es if x.kind == 'put' and x.loc == IRMS and x.args[0] == t]
            ok = v == want or w in news or stays(D, ('at', ASG, rc)) == t and v == rel_in(view_of(rc), r)
        else:
            ok = False
        ob(ok, 'relinked', 'points relations based on the moved one at %s' % pp(v)[:80])
    for key, ev, alts in alternatives(p.trace, lambda k: k == sets[0].loops[0]):
        ob(not ev[4] and all(any(e.kind == 'set' for e in effects(tr)) for tr, d, h in alts), 'relinked',
           'leaves some relations based on the moved one pointing at its old copy')


def links(C, f, ps):
    q = f['q']
    r = ('p', f['params'][0]['name'])
    rc = ('at', R2C, r)
    linked = set()
    for p in ps:
        def ob(ok, key, msg):
            return C.ob(ok, q + '|' + key, q + ' ' + msg, f, p)
        relink(p, list(effects(p.trace)), r, rc, ('at', ASG, rc), decs(p), ob, linked)
    C.ob(True in linked, q + '|relinked', q + ' never points relations at their base', f, ps[0])


# ---------------------------------------------------------------- accessors --
def where(C, f, ps, want):
    for p in ps:
        if p.exit[0] != 'ret':
            raise Odd('no result')
        C.ob(unalt(strip(p.ret)) == want, f['q'] + '|result', '%s returns %s' % (f['q'], pp(strip(p.ret))[:80]), f, p)


def where_table(C, f, ps):
    where(C, f, ps, ('at', ASG, ('at', R2C, ('p', f['params'][0]['name']))))


def where_view(C, f, ps):
    where(C, f, ps, view_of(('at', R2C, ('p', f['params'][0]['name']))))


def where_rel(C, f, ps):
    r = ('p', f['params'][0]['name'])
    where(C, f, ps, rel_in(view_of(('at', R2C, r)), r))


def route(C, f, ps):
    nm = base(f['q'])
    prm = [('p', x['name']) for x in f['params']]
    r = prm[1] if nm == 'incorporate' else prm[0]
    for p in ps:
        es = [e for e in effects(p.trace) if e.kind == 'call' and e.ev[1].startswith('IRM::')]
        ok = len(es) == 1 and es[0].ev[1] == 'IRM::' + nm and es[0].loc == view_of(('at', R2C, r)) and \
            [unalt(a) for a in es[0].args] == prm and not es[0].loops
        C.ob(ok, f['q'] + '|routed', f['q'] + ' does not hand the observation to the view of the relation once', f, p)


def build(C, f, p):
    q = f['q']
    S = ('p', f['params'][0]['name'])
    adds = [e for e in effects(p.trace) if e.kind == 'put' and e.loc == SCH]
    if not adds:
        C.ob(False, q + '|every relation', q + ' does not add the relations of the schema', f, p)
        return
    for e in adds:
        k = [x for x in e.loops if x[0] == 'key' and x[2] == S]
        if not k:
            raise Odd('schema loop')
        C.ob(e.args[0] == k[0] and unalt(e.args[1]) == ('at', S, k[0]), q + '|every relation',
             q + ' adds a relation under another name or description', f, p)
    for k, ev, alts in alternatives(p.trace, lambda k: k[0] == 'key' and k[2] == S):
        for tr, dec, how in alts:
            if how not in ('next', 'continue'):
                C.ob(False, q + '|every relation', q + ' stops before every relation of the schema is considered', f, p)
            if any(e.kind == 'put' and e.loc == SCH for e in effects(tr)):
                continue
            late = has(dec, SCH, k) is True or any(
                a[0] == 'contains' and a[1] == SCH and a[2][0] == 'f' and a[2][2] == 'base_relation' and not b for a, b in dec)
            C.ob(late, q + '|every relation', q + ' leaves out a relation that could be added', f, p)


if __name__ == '__main__':
    rule.main('C12', main)

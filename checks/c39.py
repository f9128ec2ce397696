import numpy as np
from hypothesis import strategies as st
from vf.core import Prop, check, close
from vf import ref, gen
from checks.c07 import models, keys, index
from checks.c10 import freqs, cplx

P = Prop('C39', native=['psparse', 'cf'],
         rule='A case is one or two systems and a sequence of analyses; non-trivial when at least two different analyses run on one system '
              'or both systems are used.',
         assumptions=['numba is replaced by a sequential pure-Python stand-in', 'shared.params is set for the system at hand before each analysis, as its users do'])
SZ = ['exact', 'exact2', 'cf', 'sp', 'krylov2', 'occupation', 'matvec', 'dense', 'levels', 'print', 'sequential', 'cotunneling', 'matvec', 'occupation']
CHARGE = ['matvec', 'dense', 'levels', 'print', 'nsequential', 'ncotunneling']
COMPLETE = ('exact', 'exact2', 'sequential', 'cotunneling')       # need every sector
NCOMPLETE = ('nsequential', 'ncotunneling')


@st.composite
def cases(draw):
    systems, pool = [], []
    for k in range(draw(st.integers(1, 2))):
        m = draw(models(2) if draw(st.integers(0, 2)) else models(3, 3))
        n = m['n']
        sym = draw(st.sampled_from(['sz', 'sz', 'sz', 'N']))
        if sym == 'N':
            m['H'] = [np.diag(np.diag(h)).tolist() for h in ref.spin(m['H'])]
        neig = None
        if draw(st.integers(0, 2)) == 0:
            c = draw(st.integers(1, 3))
            neig = [min(c, len(index(n, q))) for q in keys(n, sym)]
        systems.append((m, neig, sym))
        for _ in range(draw(st.integers(1, 4))):
            kind = draw(st.sampled_from(SZ if sym == 'sz' else CHARGE))
            if n == 3 and neig is None and kind in ('cotunneling', 'krylov2', 'ncotunneling'):
                kind = 'occupation' if sym == 'sz' else 'nsequential'
            pool.append(dict(system=k, kind=kind, beta=draw(st.sampled_from([.5, 2., 10., 50.])), pos=draw(st.integers(0, 5)),
                             spin=draw(st.integers(0, 1)), flag=draw(st.booleans())))
        if draw(st.integers(0, 2)) == 0:
            pool.append(dict(system=k, kind='scan', edit=(draw(st.sampled_from(['level', 'hop', 'interaction'])), draw(st.integers(0, n - 1)), draw(gen.num(-2, 2)))))
    order = draw(st.lists(st.integers(0, len(pool) - 1), min_size=2, max_size=9))
    return dict(systems=systems, pool=pool, order=order, fs=draw(freqs(3)), frozen=draw(st.booleans()))


@P.clause(350, c=cases())
def sequences(T, c):
    """Results do not depend on what was computed before, earlier results stay valid at the same and other arguments, and nothing passed in changes;
    the model may be changed in place and solved again in between, and the data may be read-only."""
    pool = c['pool']
    r = T.op('session:run', c['systems'], pool, c['order'], cplx(c['fs']), c['frozen'])
    used = [pool[i] for i in c['order']]
    frozen = ['read-only'] if c['frozen'] else []
    T.nontrivial(len({(s['system'], s['kind']) for s in used}) > 1 and any(r['size']), 'systems=%d' % len({s['system'] for s in used}),
                 *(sorted({s['kind'] for s in used}) + frozen))
    trail = []
    for i, d, same in r['steps']:
        s = pool[i]
        name = '%s of system %d' % (s['kind'], s['system'])
        check(not isinstance(d, str) and d < 1e-8, '%s gives another result after %s than alone' % (name, trail or 'nothing'), difference=d, step=s)
        check(all(same), '%s changed the data it was given' % name, systems=same, before=trail)
        trail.append(name)
    for i, d in r['other']:
        s = pool[i]
        check(not isinstance(d, str) and d < 1e-8, 'a result kept from earlier (%s of system %d) is wrong at other arguments after %s' % (s['kind'], s['system'], trail), difference=d)
    for i, d in r['again']:
        s = pool[i]
        check(not isinstance(d, str) and d < 1e-10, 'an earlier result (%s of system %d) changed after %s' % (s['kind'], s['system'], trail), difference=d)
    check(all(r['kept']), 'evaluating earlier results changed the systems')
    check(r['z'], 'the frequencies were changed')

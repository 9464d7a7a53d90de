"""P01: histories of reads, of every kind and in every order: what was loaded is dumped as it was."""
import gen, structs, ber
from props.p10 import history, style
from props.p12 import flip
from props.p13 import params


def loosely(rng):
    st = structs.ber_style(rng)
    st.own = False
    if st.indef or st.chunk:
        st.times = 0                # the offset of a local time is lost when it is shown in DER
    return st


def record(r):
    S = gen.load_schema()
    rng = r.rng
    g = gen.Gen(rng, maxdepth=4, maxlen=3)
    i = 0
    for n in structs.type_names(S, skip=structs.GENERIC):
        user = n.startswith('user_')
        core = n.startswith('core_')
        for _ in range(r.scale(12 if core else 5 if user else 5, 90 if core else 60 if user else 40)):
            i += 1
            if i % r.parts != r.part:
                continue
            im, ex = [], []
            if rng.random() < .3 and S[n]['k'] != 'any':
                im, ex = params(rng, S, n, S[n]['k'] == 'choice')
            q = rng.random()
            k = S[n]['k']
            few = k not in ('seq', 'set', 'seqof', 'setof', 'choice')
            wts = (5, 0 if few else 4, 0, 0, 0, 0, 3)
            steps = rng.randrange(3, 6) if few else rng.randrange(4, 14)
            if q < .15:
                history(r, g, n, (5, 0, 0, 0, 0, 0, 3), steps, 'damaged', im, ex, damage=flip)
            else:
                history(r, g, n, wts, steps, 'reads', im, ex, loaded=1, styled=loosely if q < .8 else style)

def evaluate(calls):
    """calls: [(name, args)] -> floats"""
    from edpyt import integrals as m
    out = []
    for name, args in calls:
        r = getattr(m, name)(*args)
        if abs(complex(r).imag) > 1e-12 * abs(complex(r)):
            raise ValueError('complex rate %r' % (r,))
        out.append(float(complex(r).real))
    return out

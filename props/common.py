REAL = "floating-point arithmetic modelled as exact real arithmetic (rounding is outside the encoding)"
SEQ = "OpenMP worksharing loops executed sequentially"


def J(src, name, inc="edge", cfg=None, opt=None, **defs):
    b = dict(src=src, inc=inc, name=name, defs=["%s=%s" % x for x in defs.items()])
    if cfg:
        b["cfg"] = cfg
    b.update(opt or {})
    return b

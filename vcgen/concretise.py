"""Input bytes that realise a model in which a callee is represented by its contract."""

PARITY = (0x55B, 0x66D, 0x78E, 0x7F0)

def codeword(d):
    for i, m in enumerate(PARITY):
        d |= (bin(d & m & 0x7FF).count('1') & 1) << (11 + i)
    return d | (bin(d).count('1') & 1) << 15

def inputs(m, z, mod, inp):
    """choose each code word so that it decodes to what the model says it does"""
    by = {}
    for (name, _), (arg, v) in m.fnvals.items():
        by.setdefault(arg.id, [arg, {}])[1][name] = mod.eval(z.tr(v), model_completion=True).as_long()
    env = {}
    for arg, vals in by.values():
        if arg.op != 'concat' or any(x.op != 'var' or x.w != 8 for x in arg.a):
            continue
        w = codeword(vals.get('hamming.data', 0) & 0x7FF)
        if 'hamming.correctable' in vals and not vals['hamming.correctable'] & 1:
            w ^= 3
        env[arg.a[0].id], env[arg.a[1].id] = w >> 8, w & 255
    out = dict(inp)
    for nm, vs in m.inputs:
        b = bytearray(bytes.fromhex(out[nm]))
        for i, t in enumerate(vs):
            if t.id in env:
                b[i] = env[t.id]
        out[nm] = b.hex()
    return out

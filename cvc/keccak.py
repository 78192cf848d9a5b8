"""Keccak-f[1600] on bits, written from the specification (FIPS 202); state bit 64*(x + 5*y) + z."""
def rc():
    out, r = [], 1
    for _ in range(24):
        c = 0
        for j in range(7):
            if r & 1: c |= 1 << ((1 << j) - 1)
            r = ((r << 1) ^ (0x171 if r >> 7 else 0)) & 0xff
        out.append(c)
    return out
RC = rc()
def offsets():
    o = {(0, 0): 0}; x, y = 1, 0
    for t in range(24):
        o[(x, y)] = (t + 1) * (t + 2) // 2 % 64; x, y = y, (2 * x + 3 * y) % 5
    return o
OFF = offsets()
def round_bits(a, r, xor, and_, one):
    at = lambda s, x, y, z: s[64 * (x % 5 + 5 * (y % 5)) + z % 64]
    c = [[None] * 64 for _ in range(5)]
    for x in range(5):
        for z in range(64):
            v = at(a, x, 0, z)
            for y in range(1, 5): v = xor(v, at(a, x, y, z))
            c[x][z] = v
    d = [[xor(c[(x - 1) % 5][z], c[(x + 1) % 5][(z - 1) % 64]) for z in range(64)] for x in range(5)]
    t = [xor(a[64 * (x + 5 * y) + z], d[x][z]) for y in range(5) for x in range(5) for z in range(64)]
    b = [None] * 1600
    for x in range(5):
        for y in range(5):
            for z in range(64): b[64 * (y + 5 * ((2 * x + 3 * y) % 5)) + (z + OFF[(x, y)]) % 64] = t[64 * (x + 5 * y) + z]
    o = [None] * 1600
    for y in range(5):
        for x in range(5):
            for z in range(64):
                v = xor(at(b, x, y, z), and_(xor(at(b, x + 1, y, z), one), at(b, x + 2, y, z)))
                if x == y == 0 and RC[r] >> z & 1: v = xor(v, one)
                o[64 * (x + 5 * y) + z] = v
    return o
def permute(a):
    for r in range(24): a = round_bits(a, r, lambda x, y: x ^ y, lambda x, y: x & y, 1)
    return a
def sponge(msg, suffix, n=32):
    m = bytearray(msg) + bytes([suffix]); m += bytes(-len(m) % 136); m[-1] |= 0x80
    s = [0] * 1600
    for o in range(0, len(m), 136):
        for k in range(136):
            for j in range(8): s[8 * k + j] ^= m[o + k] >> j & 1
        s = permute(s)
    return bytes(sum(s[8 * k + j] << j for j in range(8)) for k in range(n))
def keccak256(msg): return sponge(msg, 0x01)

"""Reader for classic NetCDF files (CDF-1/2/5), enough to compare contents."""
import array, struct, sys


class NcError(Exception):
    pass


_T = {1: ("b", 1), 2: ("c", 1), 3: ("h", 2), 4: ("i", 4), 5: ("f", 4), 6: ("d", 8)}


class Nc:
    def __init__(self, path):
        with open(path, "rb") as f:
            b = f.read()
        try:
            self._parse(b)
        except (struct.error, IndexError, KeyError, UnicodeDecodeError) as e:
            raise NcError("%s: not a complete NetCDF file (%s)" % (path, e))

    def _parse(self, b):
        if b[:3] != b"CDF" or b[3] not in (1, 2):
            raise NcError("not a classic NetCDF file")
        off8 = b[3] == 2
        p = 4

        def i4():
            nonlocal p
            v = struct.unpack_from(">i", b, p)[0]; p += 4
            return v

        def name():
            nonlocal p
            n = i4(); s = b[p:p + n].decode("utf8"); p += (n + 3) // 4 * 4
            return s

        def values(t, n):
            nonlocal p
            c, sz = _T[t]
            raw = b[p:p + n * sz]; p += (n * sz + 3) // 4 * 4
            if t == 2:
                return raw.decode("latin1")
            return list(struct.unpack(">%d%s" % (n, c), raw))

        def atts():
            tag = i4(); n = i4(); out = {}
            for _ in range(n):
                nm = name(); t = i4(); k = i4(); out[nm] = values(t, k)
            return out

        self.numrecs = i4()
        tag = i4(); n = i4(); self.dims = []
        for _ in range(n):
            nm = name(); self.dims.append((nm, i4()))
        self.atts = atts()
        tag = i4(); n = i4(); vs = []
        for _ in range(n):
            nm = name(); nd = i4(); dd = [i4() for _ in range(nd)]; at = atts(); t = i4(); sz = i4()
            if off8:
                off = struct.unpack_from(">q", b, p)[0]; p += 8
            else:
                off = i4()
            vs.append((nm, dd, at, t, sz, off))
        recs = [v for v in vs if v[1] and self.dims[v[1][0]][1] == 0]
        recsize = sum(v[4] for v in recs)
        if len(recs) == 1:  # a single record variable is not padded
            c, s = _T[recs[0][3]]; k = s
            for d in recs[0][1][1:]:
                k *= self.dims[d][1]
            recsize = k
        self.vars = {}; self.vatts = {}; self.vdims = {}
        for nm, dd, at, t, sz, off in vs:
            c, s = _T[t]
            isrec = bool(dd) and self.dims[dd[0]][1] == 0
            k = 1
            for d in dd[1 if isrec else 0:]:
                k *= self.dims[d][1]
            out = []
            for r in range(self.numrecs if isrec else 1):
                o = off + r * recsize
                if len(b) < o + k * s:
                    raise NcError("truncated data of %s" % nm)
                if t == 2:
                    out.append(b[o:o + k])
                else:
                    a = array.array(c if c != "i" else "i"); a.frombytes(b[o:o + k * s])
                    if sys.byteorder == "little":
                        a.byteswap()
                    out.append(a)
            self.vars[nm] = out  # list of records (one entry when there is no record dimension)
            self.vatts[nm] = at
            self.vdims[nm] = [self.dims[d][0] for d in dd]


def compare(a, b, rtol, skip=(), scale=None):
    """first difference between two Nc objects beyond rtol * largest absolute value of the variable, or None.
    Returns also the largest relative difference seen."""
    worst = 0.0
    if sorted(a.vars) != sorted(b.vars):
        return "variables %s / %s" % (sorted(a.vars), sorted(b.vars)), 1.0
    for v in a.vars:
        if v in skip:
            continue
        x, y = a.vars[v], b.vars[v]
        if len(x) != len(y) or any(len(p) != len(q) for p, q in zip(x, y)):
            return "shape of %s" % v, 1.0
        for r, (p, q) in enumerate(zip(x, y)):
            if p == q:
                continue
            if isinstance(p, bytes):
                return "text of %s" % v, 1.0
            m = max([abs(z) for rec in x for z in rec if z == z] + [0.0])
            if scale:
                m = max(m, scale.get(v, 0.0))
            for i, (s, t) in enumerate(zip(p, q)):
                if s == t or (s != s and t != t):
                    continue
                d = abs(s - t)
                rel = d / m if m > 0 else float("inf")
                if not (rel <= worst):
                    worst = rel
                if not (rel <= rtol):
                    return "%s record %d element %d: %r / %r (scale %.3g)" % (v, r, i, s, t, m), rel
    return None, worst

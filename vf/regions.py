"""Generation of region selections and their reference."""
import numpy as np
from hypothesis import strategies as st
from . import build as B, gen as G

# A bound is None, ["on", index] or ["off", index, fraction]
# Index 1000 is the middle (equator, 180 degrees)
_index = G.weighted((8, st.integers(0, 400)), (1, st.just(1000)))
# Also barely inside or outside of the next row (far more than rounding of the coordinates)
_frac = G.weighted((5, st.integers(1, 9).map(lambda i: i / 10.)), (1, st.sampled_from([1e-5, 1e-4, 1e-3, 1e-2, 1 - 1e-5, 1 - 1e-4, 1 - 1e-3, 1 - 1e-2])))

def bound(none=1):
    return G.weighted((none, st.none()), (4, st.tuples(st.just("on"), _index).map(list)),
            (3, st.tuples(st.just("off"), _index, _frac).map(list)))

@st.composite
def selections(draw):
    lon = draw(G.weighted((2, st.just(["all"])), (2, st.tuples(st.just("one"), _index).map(list)),
        (6, st.tuples(st.just("range"), bound(), bound()).map(list))))
    lat = draw(G.weighted((2, st.just(["all"])), (1, st.sampled_from([["N"], ["S"]])),
        (2, st.tuples(st.just("one"), _index).map(list)),
        (6, st.tuples(st.just("range"), bound(), bound()).map(list))))
    return {"lon": lon, "lat": lat, "num": draw(st.sampled_from(["float", "np", "f4", "int", "decimal", "arith", "arith"])),
            "bare": draw(st.booleans())}

def _value(grid, n, b, which, num):
    """(number handed to the selection, exact position in units of the spacing)"""
    if b is None:
        return None, None
    coords, m, d = (grid.lon, 2 * n, 180. / n) if which == "lon" else (grid.lat, n + 1, -180. / n)
    i = b[1] % m if b[1] != 1000 else n if which == "lon" else n // 2
    if b[0] == "on":
        v = float(coords[i])
        if num == "decimal":
            v = float(round(v, 9))
        elif num == "arith":
            # The same point computed in another way (differs by rounding)
            v = i * 360. / m if which == "lon" else -90. + (n - i) * (180. / n)
            if (i + n) % 3 == 1:
                v = v + 1e-11 if i % 2 else v - 1e-11
            elif (i + n) % 3 == 2:
                v = float(np.linspace(0., 360., m + 1)[i] if which == "lon" else np.degrees(0.5 * np.pi - i * (np.pi / n)))
        pos = i
    else:
        pos = i + b[2]
        if which == "lat" and i == n:
            pos = i - b[2]
        v = (0. if which == "lon" else 90.) + pos * d
    if num == "np":
        v = np.float64(v)
    elif num == "int" and v == int(v):
        v = int(v)
    elif num == "f4" and float(np.float32(v)) == v:
        v = np.float32(v)
    return v, pos

def make(grid, n, sel):
    """(key for grid.region, expected longitude indices, latitude indices)"""
    num = sel["num"]
    kind = sel["lon"][0]
    if kind == "all":
        lon, ilon = slice(None, None), list(range(2 * n))
    elif kind == "one":
        lon, p = _value(grid, n, ["on", sel["lon"][1]], "lon", num)
        ilon = [p]
    else:
        lo, a = _value(grid, n, sel["lon"][1], "lon", num)
        hi, b = _value(grid, n, sel["lon"][2], "lon", num)
        lon = slice(lo, hi)
        if a is not None and b is not None and b < a:
            ilon = [i for i in range(2 * n) if i >= a] + [i for i in range(2 * n) if i <= b]
        else:
            ilon = [i for i in range(2 * n) if (a is None or i >= a) and (b is None or i <= b)]
    kind = sel["lat"][0]
    if kind == "all":
        lat, ilat = slice(None, None), list(range(n + 1))
    elif kind in "NS":
        lat = kind
        ilat = [j for j in range(n + 1) if (2 * j <= n if kind == "N" else 2 * j >= n)]
    elif kind == "one":
        lat, p = _value(grid, n, ["on", sel["lat"][1]], "lat", num)
        ilat = [p]
    else:
        lo, a = _value(grid, n, sel["lat"][1], "lat", num)
        hi, b = _value(grid, n, sel["lat"][2], "lat", num)
        lat = slice(lo, hi)
        # positions count from north to south
        if a is not None and b is not None:
            ilat = [j for j in range(n + 1) if min(a, b) <= j <= max(a, b)]
        elif a is not None: # start given: everything north of it
            ilat = [j for j in range(n + 1) if j <= a]
        elif b is not None:
            ilat = [j for j in range(n + 1) if j >= b]
        else:
            ilat = list(range(n + 1))
    key = lon if sel["bare"] and sel["lat"][0] == "all" else (lon, lat)
    return key, ilon, ilat

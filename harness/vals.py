"""Projection between Python values and the specification's values (Values.tla)."""
import datetime
import math
from fractions import Fraction
from decimal import Decimal

NULL = [0, 0, 1, []]
EPOCH = datetime.date(1970, 1, 1).toordinal()


def num(n, d=1):
    return [1, n, d, []]


def txt(s):
    return [2, 0, 1, [ord(c) for c in s]]


def lst(vs):
    return [3, 0, 1, list(vs)]


BAD = [9, 0, 1, []]
LIM = 2 ** 31 - 1


def enc(v):
    """Project a value the code produced; anything unexpected becomes tag 9."""
    if v is None:
        return NULL
    if isinstance(v, bool):
        return num(1 if v else 0)
    if isinstance(v, int):
        return num(v) if abs(v) < LIM else [9, 0, 1, [ord(c) for c in str(v)[:40]]]
    if isinstance(v, (float, Decimal)):
        if isinstance(v, float) and not math.isfinite(v):
            return [9, 0, 1, [ord(c) for c in repr(v)]]
        f = Fraction(v).limit_denominator(20000)
        if abs(float(f) - float(v)) > 1e-9 * max(1.0, abs(float(v))) or abs(f.numerator) > LIM:
            return [9, 0, 1, [ord(c) for c in repr(v)[:40]]]
        return num(f.numerator, f.denominator)
    if isinstance(v, str):
        return txt(v)
    if isinstance(v, (list, tuple)):
        return lst([enc(x) for x in v])
    if isinstance(v, dict) and all(isinstance(k, str) for k in v):
        return [7, 0, 1, [[[ord(c) for c in k], enc(x)] for k, x in v.items()]]
    if isinstance(v, (set, frozenset)):
        return lst(sorted([enc(x) for x in v]))
    if isinstance(v, datetime.datetime) and not v.microsecond:
        return [5, v.toordinal() - EPOCH, v.hour * 3600 + v.minute * 60 + v.second, []]
    if isinstance(v, datetime.date) and not isinstance(v, datetime.datetime):
        return [4, v.toordinal() - EPOCH, 1, []]
    if isinstance(v, datetime.time) and not v.microsecond:
        return [6, v.hour * 3600 + v.minute * 60 + v.second, 1, []]
    return [9, 0, 1, [ord(c) for c in repr(v)[:60]]]


def dec(v):
    if v[0] == 0:
        return None
    if v[0] == 1:
        return v[1] if v[2] == 1 else v[1] / v[2]
    if v[0] == 2:
        return "".join(chr(c) for c in v[3])
    if v[0] == 3:
        return [dec(x) for x in v[3]]
    if v[0] == 7:
        return {"".join(chr(c) for c in k): dec(x) for k, x in v[3]}
    if v[0] in (4, 5):
        d = datetime.date.fromordinal(v[1] + EPOCH).isoformat()
        return d if v[0] == 4 else "%s %02d:%02d:%02d" % (d, v[2] // 3600, v[2] // 60 % 60, v[2] % 60)
    if v[0] == 6:
        return "%02d:%02d:%02d" % (v[1] // 3600, v[1] // 60 % 60, v[1] % 60)
    return "<unprojectable %s>" % "".join(chr(c) for c in v[3])


def lit(v):
    """SQL literal of a spec value."""
    if v[0] == 0:
        return "NULL"
    if v[0] == 1:
        return str(v[1])
    return "'" + "".join(chr(c) for c in v[3]).replace("'", "''") + "'"

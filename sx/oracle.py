"""Reference formulas, on plain nested lists (numbers or symbolic reals)."""


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def neg(a):
    return [-x for x in a]


def scale(s, a):
    return [s * x for x in a]


def dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        s = s + x * y
    return s


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1],
            a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0]]


def qconj(q):
    return [q[0], -q[1], -q[2], -q[3]]


def qmul(a, b):
    return [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]


def norm2(q):
    return dot(q, q)


def rot(q, v):
    """Rotate v by the unit quaternion q."""
    return qmul(qmul(q, [0 * q[0]] + list(v)), qconj(q))[1:]


def rotm(q):
    w, x, y, z = q
    return [
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
    ]


def lerp(a, b, w):
    return [x + (y - x) * w for x, y in zip(a, b)]


# rigid transforms as (translation, unit rotation): p -> rot(r, p) + t
IDENT = ([0, 0, 0], [1, 0, 0, 0])


def compose(b, a):
    """First a, then b."""
    return add(rot(b[1], a[0]), b[0]), qmul(b[1], a[1])


def inverse(a):
    rc = qconj(a[1])
    return neg(rot(rc, a[0])), rc

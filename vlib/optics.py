"""Reference optics, written from the physics and independent of the code under test.

A camera is a dict: pos (3), ang (omega, phi, kappa), cc, xh, yh, glass (3), and the media a dict
n1, n2, n3, d.  The glass is the slab whose near side (towards the origin) lies at distance |glass|
from the origin along the glass vector, and whose far side (towards the camera) lies d further.
"""
import math
import numpy as np


def rot(ang):
    o, p, k = ang
    rx = np.array([[1, 0, 0], [0, math.cos(o), -math.sin(o)], [0, math.sin(o), math.cos(o)]])
    ry = np.array([[math.cos(p), 0, math.sin(p)], [0, 1, 0], [-math.sin(p), 0, math.cos(p)]])
    rz = np.array([[math.cos(k), -math.sin(k), 0], [math.sin(k), math.cos(k), 0], [0, 0, 1]])
    return rx @ ry @ rz


def trace(cam, mm, x, y):
    """Start on the near side of the glass and unit direction behind it of the ray of a flat image point."""
    u = rot(cam["ang"]) @ np.array([x, y, -cam["cc"]], float)
    u /= np.linalg.norm(u)
    g = np.array(cam["glass"], float)
    dist = np.linalg.norm(g)
    n = g / dist
    pos = np.array(cam["pos"], float)
    far = dist + mm["d"]
    a = pos + u * ((far - n @ pos) / (n @ u))

    def refract(u, r):
        t = (u - n * (n @ u)) * r
        return t - n * math.sqrt(1 - t @ t)

    v = refract(u, mm["n1"] / mm["n2"])
    b = a + v * (mm["d"] / -(n @ v))
    return b, refract(v, mm["n2"] / mm["n3"])


def project(cam, mm, X):
    """Flat image point of a position behind the glass."""
    g = np.array(cam["glass"], float)
    dist = np.linalg.norm(g)
    n = g / dist
    pos = np.array(cam["pos"], float)
    X = np.array(X, float)
    hc = n @ pos - dist - mm["d"]       # camera above the far side
    hp = dist - n @ X                   # depth of the point below the near side
    lat = (X - pos) - n * (n @ (X - pos))
    r = np.linalg.norm(lat)
    if r < 1e-12:
        u = -n
    elif mm["n1"] == mm["n2"] == mm["n3"]:
        u = (X - pos) / np.linalg.norm(X - pos)
    else:
        # find the ray whose lateral reach is r; t = tangent of its angle in the first medium (monotone)
        q2, q3, d = mm["n1"] / mm["n2"], mm["n1"] / mm["n3"], mm["d"]

        def reach(s1):                  # s1 = sine in the first medium
            s2, s3 = s1 * q2, s1 * q3
            return (hc * s1 / math.sqrt(1 - s1 * s1) + d * s2 / math.sqrt(1 - s2 * s2)
                    + hp * s3 / math.sqrt(1 - s3 * s3))
        lo, hi = 0.0, min(1.0, 1 / q2, 1 / q3) * (1 - 1e-13)
        for _ in range(54):
            m = 0.5 * (lo + hi)
            if reach(m) < r:
                lo = m
            else:
                hi = m
        u = lat / r * lo - n * math.sqrt(1 - lo * lo)
    w = rot(cam["ang"]).T @ u
    return -cam["cc"] * w[0] / w[2], -cam["cc"] * w[1] / w[2]


def at_z(vertex, direct, z):
    return vertex + direct * ((z - vertex[2]) / direct[2])


def make_cal(cam):
    """The camera as an object of the code under test."""
    import numpy as np
    from openptv_python.calibration import Calibration
    c = Calibration()
    c.set_pos(np.array(cam["pos"], float))
    c.set_angles(np.array(cam["ang"], float))
    c.set_primary_point(np.array([cam.get("xh", 0.0), cam.get("yh", 0.0), cam["cc"]], float))
    c.set_glass_vec(np.array(cam["glass"], float))
    if "added" in cam:
        c.set_added_par(np.array(cam["added"], float))
    return c


def make_mm(mm):
    from openptv_python.parameters import MultimediaPar
    return MultimediaPar(n1=mm["n1"], n2=[mm["n2"]], n3=mm["n3"], d=[mm["d"]])


def look_at(pos, target, kappa=0.0):
    """Angles of a camera at pos whose axis -z passes through target."""
    z = np.array(pos, float) - np.array(target, float)
    z /= np.linalg.norm(z)
    # third column of rot: (sin p, -sin o cos p, cos o cos p)
    p = math.asin(z[0])
    o = math.atan2(-z[1], z[2])
    return [o, p, kappa]


# ------------------------------------------------------------- pixels and distortion
def distort(x, y, a):
    """Image point with Brown distortion and affinity; a = k1 k2 k3 p1 p2 scx she."""
    r2 = x * x + y * y
    rad = 1 + a[0] * r2 + a[1] * r2 ** 2 + a[2] * r2 ** 3
    xd = x * rad + a[3] * (r2 + 2 * x * x) + 2 * a[4] * x * y
    yd = y * rad + a[4] * (r2 + 2 * y * y) + 2 * a[3] * x * y
    s = math.sin(a[6])
    return a[5] * xd - s * yd, math.cos(a[6]) * yd


def undistort(x, y, a):
    """Inverse of distort, by Newton steps."""
    u, v = x, y
    h = 1e-6
    for _ in range(50):
        f = distort(u, v, a)
        ex, ey = f[0] - x, f[1] - y
        if abs(ex) + abs(ey) < 1e-13:
            break
        fu, fv = distort(u + h, v, a), distort(u, v + h, a)
        j11, j21 = (fu[0] - f[0]) / h, (fu[1] - f[1]) / h
        j12, j22 = (fv[0] - f[0]) / h, (fv[1] - f[1]) / h
        det = j11 * j22 - j12 * j21
        u -= (j22 * ex - j12 * ey) / det
        v -= (j11 * ey - j21 * ex) / det
    return u, v


NODIST = [0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0]


def to_pixel(cam, mm, X, w, h, pix):
    """Pixel position of a point in an image of w x h pixels of size pix."""
    x, y = project(cam, mm, X)
    return flat_to_pixel(cam, x, y, w, h, pix)


def flat_to_pixel(cam, x, y, w, h, pix):
    """As the code defines it: the principal point is added before the distortion is applied."""
    x, y = distort(x + cam.get("xh", 0.0), y + cam.get("yh", 0.0), cam.get("added", NODIST))
    return x / pix + w / 2.0, h / 2.0 - y / pix


def pixel_to_flat(cam, u, v, w, h, pix):
    x, y = undistort((u - w / 2.0) * pix, (h / 2.0 - v) * pix, cam.get("added", NODIST))
    return x - cam.get("xh", 0.0), y - cam.get("yh", 0.0)


def closest(rays):
    """Mean of the midpoints of the shortest connections of all pairs of rays, and the mean half... distance."""
    pts, ds = [], []
    for i in range(len(rays)):
        for j in range(i + 1, len(rays)):
            (a, u), (b, v) = rays[i], rays[j]
            w = a - b
            uu, uv, vv = u @ u, u @ v, v @ v
            den = uu * vv - uv * uv
            s = (uv * (v @ w) - vv * (u @ w)) / den
            t = (uu * (v @ w) - uv * (u @ w)) / den
            p, q = a + s * u, b + t * v
            pts.append((p + q) / 2)
            ds.append(np.linalg.norm(p - q))
    return np.mean(pts, axis=0), float(np.mean(ds))

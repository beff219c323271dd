"""synthetic training sets: small face-like images whose pixels follow their landmarks"""
from .common import *

MEAN = np.array([[0., 0.], [0., 1.], [.25, .5], [.55, .5], [.8, .15], [.95, .5], [.8, .85]])


def face(g, n_points=7, channels=1, size=60, group='PTS', scale=None, noise=0.03, dims=None):
    """an image of about size pixels, landmarks well inside"""
    from menpo.image import Image
    from menpo.shape import PointCloud
    h, w = dims or (size + g.int(0, 8), size + g.int(0, 8))
    s = scale or size * g.uniform(.4, .5)
    m = MEAN[:n_points] if n_points <= len(MEAN) else np.vstack([MEAN, g.r.uniform(.1, .9, (n_points - len(MEAN), 2))])
    th = g.uniform(-.15, .15)
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    p = (m - m.mean(0) + g.normal(*m.shape) * .04).dot(R.T) * s + [h * .5, w * .5] + g.uniform(-3, 3, 2)
    yy, xx = np.mgrid[:h, :w]
    px = np.zeros((channels, h, w))
    for c in range(channels):
        for k, q in enumerate(p):
            a = .35 + .1 * ((k * (c + 1)) % 5)
            px[c] += a * np.exp(-((yy - q[0]) ** 2 + (xx - q[1]) ** 2) / (2 * (size / 12.) ** 2))
    px += g.uniform(0, noise, *px.shape)
    px = np.clip(px / px.max(), 0, 1)
    im = Image(px)
    im.landmarks[group] = PointCloud(p)
    return im


def faces(g, n=4, **k):
    return [face(g, **k) for _ in range(n)]


class Keep(object):
    """images, landmarks and shapes must come out of a call as they went in"""
    def __init__(self, images=(), shapes=()):
        self.ims = list(images)
        self.px = [im.pixels.copy() for im in self.ims]
        self.lm = [{k: im.landmarks[k].points.copy() for k in im.landmarks} for im in self.ims]
        self.shapes = list(shapes)
        self.sp = [s.points.copy() for s in self.shapes]

    def check(self, what='the call'):
        for im, p, l in zip(self.ims, self.px, self.lm):
            need(np.array_equal(im.pixels, p), 'pixels of the given images unmodified by ' + what)
            need(sorted(im.landmarks) == sorted(l), 'landmark groups of the given images unmodified by ' + what,
                 got=sorted(im.landmarks), expected=sorted(l))
            for k in l:
                need(np.array_equal(im.landmarks[k].points, l[k]), 'landmarks unmodified by ' + what, group=k)
        for s, p in zip(self.shapes, self.sp):
            need(np.array_equal(s.points, p), 'given shapes unmodified by ' + what)

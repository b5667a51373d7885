"""C25 - merged geometric transforms."""
from core import *

RULE = ("random sequences of the supported torchvision transforms x image sizes x random draws; the matrix and size composed by the mappers are compared with the real transforms applied one after another "
        "(same random seed per step) to an image whose pixel values are their coordinates; also MergeTransform on such images; non-trivial: at least two transforms of different kinds")
KINDS = ["resize1", "resize2", "rrc", "hflip", "vflip", "rot", "rotx", "crop", "croppad", "croppadding", "persp", "center", "centerbig", "custom"]


def gen(tier, rng):
    q = tier == "quick"

    def step():
        k = rng.choice(KINDS)
        p = dict(k=k, s=rng.randint(0, 10 ** 6))
        if k == "resize1":
            p.update(size=rng.randint(12, 60), mx=rng.choice([None, None, 61, 80]))
        elif k in ("resize2", "rrc", "center", "centerbig", "croppad", "crop", "croppadding"):
            p.update(size=[rng.randint(12, 60), rng.randint(12, 60)])
        if k == "centerbig":
            p["size"] = [rng.randint(30, 80), rng.randint(30, 80)]
        if k == "croppadding":
            p["padding"] = rng.choice([3, [4], [2, 5], [1, 2, 3, 4]])
        if k in ("hflip", "vflip", "persp"):
            p["p"] = rng.choice([0.0, 0.5, 1.0, 1.0])
        if k in ("rot", "rotx"):
            p["deg"] = rng.choice([30, 180, [90, 90], [-90, -90], [45, 45], [10, 20]])
        return p
    for k in KINDS:
        for _ in range(12 if q else 200):
            for _ in range(50):
                s = step()
                if s["k"] == k:
                    break
            yield dict(h=rng.randint(20, 60), w=rng.randint(20, 60), t=[s])
    for _ in range(600 if q else 30000):
        yield dict(h=rng.randint(16, 70), w=rng.randint(16, 70), t=[step() for _ in range(rng.randint(2, 4))])


def nontrivial(c):
    return len({t["k"] for t in c["t"]}) > 1


def build(p, T, F, custom):
    k, B = p["k"], T.InterpolationMode.BILINEAR
    return dict(resize1=lambda: T.Resize(p["size"], interpolation=B, max_size=p["mx"]), resize2=lambda: T.Resize(p["size"], interpolation=B), rrc=lambda: T.RandomResizedCrop(p["size"], interpolation=B),
                hflip=lambda: T.RandomHorizontalFlip(p["p"]), vflip=lambda: T.RandomVerticalFlip(p["p"]), rot=lambda: T.RandomRotation(p["deg"], interpolation=B),
                rotx=lambda: T.RandomRotation(p["deg"], interpolation=B, expand=True), crop=lambda: T.RandomCrop(p["size"]), croppad=lambda: T.RandomCrop(p["size"], pad_if_needed=True),
                croppadding=lambda: T.RandomCrop(p["size"], padding=p["padding"]), persp=lambda: T.RandomPerspective(0.3, p["p"], interpolation=B), center=lambda: T.CenterCrop(p["size"]),
                centerbig=lambda: T.CenterCrop(p["size"]), custom=lambda: custom())[k]()


def run(c):
    import torch, numpy as np, PIL.Image
    from torchvision import transforms as T
    from torchvision.transforms import functional as F
    from megatron.energon.transforms import merge, custom, mappers
    torch.set_num_threads(1)
    if not hasattr(merge, "MergeTransform") or not hasattr(custom, "CustomTransform"):
        raise Inapplicable("MergeTransform or CustomTransform is gone")

    class Shift(custom.CustomTransform):
        """Moves the image by (2, 3) pixels without changing its size."""
        def __init__(self):
            torch.nn.Module.__init__(self) if isinstance(self, torch.nn.Module) else None

        def apply_transform(self, matrix, dst_size):
            return self.translate(2, 3) @ matrix, dst_size, ("Shift",)

        def __call__(self, x):
            if isinstance(x, PIL.Image.Image):
                return x
            y = torch.zeros_like(x)
            y[:, 3:, 2:] = x[:, :-3, :-2]
            return y
    ts = [build(p, T, F, Shift) for p in c["t"]]
    m = merge.MergeTransform(ts)
    h, w = c["h"], c["w"]
    ys, xs = torch.meshgrid(torch.arange(h) + .5, torch.arange(w) + .5, indexing="ij")
    img = torch.stack([xs, ys, torch.ones_like(xs)]).float()
    pil = PIL.Image.new("F", (w, h))
    M, size = np.eye(3), np.array((h, w), dtype=np.int64)
    rej = None
    for i, (p, t, mt) in enumerate(zip(c["t"], ts, m.transforms)):
        what = f"image {h}x{w}, transforms {[x['k'] for x in c['t'][:i + 1]]} with {json.dumps(p)}"
        before = (M.copy(), size.copy())
        torch.manual_seed(p["s"])
        try:
            img2 = t(img)
        except (ValueError, RuntimeError) as e:
            img2 = e
        torch.manual_seed(p["s"])
        try:
            pil = t(pil)
        except (ValueError, RuntimeError) as e:
            if not isinstance(img2, Exception):
                return
        torch.manual_seed(p["s"])
        try:
            M, size, params = mt.apply_transform(M.copy(), size.copy())
        except ValueError as e:
            if isinstance(img2, Exception):
                return
            raise Violation(f"{what}: rejected ({e}), but the transform accepts an image of size {tuple(img.shape[1:])}")
        if isinstance(img2, Exception):
            raise Violation(f"{what}: accepted, but the transform rejects an image of size {tuple(img.shape[1:])}: {img2}")
        img = img2
        eq((int(size[1]), int(size[0])), pil.size, f"{what}: output size (width, height)")
        if tuple(img.shape[1:]) != (pil.size[1], pil.size[0]):
            return      # torchvision itself rounds sizes of rotated tensors and images differently
        inv = np.linalg.inv(M)
        oh, ow = img.shape[1:]
        gy, gx = np.meshgrid(np.arange(oh) + .5, np.arange(ow) + .5, indexing="ij")
        pts = inv @ np.stack([gx.ravel(), gy.ravel(), np.ones(gx.size)])
        px, py = pts[0] / pts[2], pts[1] / pts[2]
        ok = (img[2].numpy().ravel() > .999) & (px > 2) & (px < w - 2) & (py > 2) & (py < h - 2)
        if ok.sum() < 60:
            return
        sc = max(abs(np.linalg.det(inv[:2, :2])) ** .5, .02)
        ex = np.abs(img[0].numpy().ravel() - px)[ok]
        ey = np.abs(img[1].numpy().ravel() - py)[ok]
        err = max(float(np.median(ex)), float(np.median(ey)))
        lim = .2 * sc + .02 + .05 * sum(x["k"] == "persp" for x in c["t"][:i + 1])
        req(err < lim, lambda: f"{what}: coordinates differ from applying the transforms one after another by {err:.3f} pixels of the source image (limit {lim:.3f})")
        if not (0 < size[0] and 0 < size[1]):
            raise Violation(f"{what}: empty image")
    # the merged transform as a whole: the same coordinates on an image
    if len(ts) > 1 and not any(p["k"] == "custom" for p in c["t"]):
        # several transforms in one go: the real transforms one after another, drawing from one random sequence
        def chain(x):
            torch.manual_seed(5)
            for t in ts:
                x = t(x)
            return x
        full = torch.stack([xs, ys, torch.ones_like(xs)]).float()
        try:
            want = chain(full)
        except (ValueError, RuntimeError):
            return
        torch.manual_seed(5)
        out = m(full)
        if not any(p["k"] == "rotx" for p in c["t"]):
            eq(tuple(out.shape), tuple(want.shape), f"image {h}x{w}, {json.dumps(c['t'])}: shape of the transformed tensor")
        if out.shape == want.shape:
            ok = (out[2] > .999) & (want[2] > .999) & (out[0] > 2) & (out[0] < w - 2) & (out[1] > 2) & (out[1] < h - 2)
            if int(ok.sum()) > 60:
                e = float((out - want)[0][ok].abs().median()) + float((out - want)[1][ok].abs().median())
                req(e < .6 * sc + .1 + .1 * sum(x["k"] == "persp" for x in c["t"]), lambda: f"image {h}x{w}, {json.dumps(c['t'])}: the transformed tensor differs by {e:.3f} pixels from the transforms one after another")
    if len(ts) == 1 and c["t"][0]["k"] != "custom":
        if not any(p["k"] in ("rotx",) for p in c["t"]):
            full = torch.stack([xs, ys, torch.ones_like(xs)]).float()
            torch.manual_seed(c["t"][0]["s"])
            out = m(full)
            eq(tuple(out.shape), tuple(img.shape), f"image {h}x{w}, {json.dumps(c['t'])}: shape of the transformed tensor")
            if ok.sum() >= 60:
                e = float(np.median(np.abs(out[0].numpy().ravel() - px)[ok])) + float(np.median(np.abs(out[1].numpy().ravel() - py)[ok]))
                req(e < .1 * sc + .02, lambda: f"image {h}x{w}, {json.dumps(c['t'])}: the transformed tensor differs by {e:.3f} pixels")
    if len(ts) == 1 and c["t"][0]["k"] not in ("custom", "persp"):
        torch.manual_seed(c["t"][0]["s"])
        src = PIL.Image.fromarray(np.asarray(xs.numpy(), dtype=np.float32))
        out = m(src)
        eq(out.size, pil.size, f"image {h}x{w}, {json.dumps(c['t'])}: size of the transformed image")
        if ok.sum() >= 60:
            e = float(np.median(np.abs(np.asarray(out).ravel() - px)[ok]))
            req(e < .3 * sc + .1, lambda: f"image {h}x{w}, {json.dumps(c['t'])}: the transformed image differs by {e:.3f} pixels")


def shrink(c):
    for i in range(len(c["t"])):
        if len(c["t"]) > 1:
            yield dict(c, t=c["t"][:i] + c["t"][i + 1:])

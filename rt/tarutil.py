"""Scratch webdatasets: tar files, indexes and metadata written by the real preparation code or by hand."""
import io as _io, shutil, tarfile, tempfile
from pathlib import Path as _P
from core import *


class scratch:
    """A scratch directory which is removed afterwards."""

    def __enter__(self):
        base = os.environ.get("VERIF_SCRATCH") or ("/dev/shm" if os.path.isdir("/dev/shm") else None)
        self.d = tempfile.mkdtemp(prefix="verif_rt_", dir=base)
        return _P(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def content(shard, member):
    return f"{shard}:{member}".encode()


def write_tar(path, members, tag=None):
    """members: list of names, or ("dir", name), or (name, bytes)."""
    tag = tag or path.name
    fmt = {"pax": tarfile.PAX_FORMAT, "gnu": tarfile.GNU_FORMAT, "ustar": tarfile.USTAR_FORMAT}["gnu"]
    with tarfile.open(path, "w", format=fmt) as t:
        for m in members:
            if isinstance(m, (list, tuple)) and m[0] == "dir":
                ti = tarfile.TarInfo(m[1])
                ti.type = tarfile.DIRTYPE
                t.addfile(ti)
                continue
            if isinstance(m, (list, tuple)) and m[0] == "link":
                ti = tarfile.TarInfo(m[1])
                ti.type = tarfile.SYMTYPE
                ti.linkname = m[2]
                t.addfile(ti)
                continue
            name, data = m if isinstance(m, (list, tuple)) else (m, content(tag, m))
            ti = tarfile.TarInfo(name)
            ti.size = len(data)
            t.addfile(ti, _io.BytesIO(data))


def build_index(path):
    """The real index builder; returns the ShardInfo."""
    from megatron.energon.epathlib import EPath
    from megatron.energon.flavors.webdataset.prepare import WebdatasetPreparator
    if not hasattr(WebdatasetPreparator, "_preprocess_tar"):
        raise Inapplicable("_preprocess_tar is gone")
    info, parts = WebdatasetPreparator._preprocess_tar(path.name, parent_path=str(path.parent), max_parts=50)
    return info, parts


def meta(root, counts, splits=None, exclude=(), dataset_yaml=None, names=None):
    import yaml
    (root / ".nv-meta").mkdir(exist_ok=True)
    (root / ".nv-meta/.info.yaml").write_text(yaml.dump({"shard_counts": counts}))
    (root / ".nv-meta/split.yaml").write_text(yaml.dump(
        {"split_parts": splits or {"train": list(counts), "val": list(counts)}, "exclude": list(exclude)}))
    if dataset_yaml is not None:
        (root / ".nv-meta/dataset.yaml").write_text(dataset_yaml if isinstance(dataset_yaml, str) else yaml.dump(dataset_yaml))


def simple_dataset(root, counts, exts=("txt", "json"), prefix="s", yaml_=None, exclude=(), key=None, data=None):
    """Shards prefix0.tar.. with counts[i] samples of the given extensions.  Returns shard -> [keys]."""
    root.mkdir(parents=True, exist_ok=True)
    res, cs, n = {}, {}, 0
    for i, c in enumerate(counts):
        name = f"{prefix}{i}.tar"
        mem, keys = [], []
        for j in range(c):
            k = key(i, j) if key else f"{n:05d}"
            keys.append(k)
            for e in exts:
                mem.append((f"{k}.{e}", data(i, j, e) if data else content(f"{root.name}/{name}", f"{k}.{e}")))
            n += 1
        write_tar(root / name, mem)
        build_index(root / name)
        res[name], cs[name] = keys, c
    meta(root, cs, exclude=exclude, dataset_yaml=yaml_)
    return res

"""C29: the pipeline a task encoder builds."""
from pipeline import *


class Build(Contract):
    """The pipeline, from the source to the outermost step: every configured step once, in this order, with the sizes configured."""
    train = True

    def run(self, P):
        record(self)
        wc = WC(rank=0, world_size=1, num_workers=P.int("num_workers", 0))
        log = P.choose(2)
        self.patch(WC, "should_log", lambda self_, level: (P.prove("levels", level == (1 if self.train else 2)), bool(log))[1])
        encode, pack, group, batch, encode_batch, cookers = (bool(P.choose(2)) for _ in range(6))
        E = encoder(encode, pack, group, batch, encode_batch, cookers, not log)
        n = 1 if group or pack else P.choose(3) + 1
        fs = [Factory(i, P.int(f"len{i}", 0)) for i in range(n)]
        ws = [P.real(f"weight{i}") for i in range(n)]
        if P.choose(2):
            bs = P.int("batch_size", 1)
        else:
            bs = None
            if not group and (batch or encode_batch):
                return self.rejected(P, E, fs, ws, wc)
        drop = cookers
        pbs = P.int("packing_buffer_size", 1) if pack else None
        kw = dict(datasets=list(zip(fs, ws)), worker_config=wc, batch_size=bs, batch_drop_last=drop, packing_buffer_size=pbs)
        sbs = vel = limit = None
        if self.train:
            vel = P.int("virtual_epoch_length", 0)
            sbs = P.int("shuffle_buffer_size", 0) if P.choose(2) else None
            D = E.build_train_datasets(virtual_epoch_length=vel, shuffle_buffer_size=sbs, **kw)
        else:
            limit = P.int("limit", 0) if P.choose(2) else None
            D = E.build_val_datasets(limit=limit, **kw)
        # from the outermost step inwards
        steps = []
        d = D
        while d.kind != "source" and d.kind not in ("BlendDataset", "ConcatDataset"):
            steps.append(d)
            P.prove("every step runs with the worker configuration", d.worker_config is wc)
            d = d.dataset
        steps.reverse()
        if n == 1:
            P.cover("one dataset")
            P.prove("a single dataset is the source itself", d.kind == "source" and d.i == 0)
        elif self.train:
            P.cover("blend")
            P.prove("several training datasets are blended", d.kind == "BlendDataset" and d.worker_config is wc)
            src = d.dataset_weights
            P.prove("every dataset is blended once, with its weight", len(src) == n and all(x[0].kind == "source" and x[0].i == i and x[1] is ws[i] for i, x in enumerate(src)))
        else:
            P.cover("concat")
            P.prove("several validation datasets are concatenated", d.kind == "ConcatDataset" and d.worker_config is wc)
            src = d.datasets
            P.prove("every dataset is there once, in order", [x.i for x in src] == list(range(n)))
        P.prove("every dataset is built once", all(len(x.built) == 1 for x in fs))

        def expect(kind, **params):
            P.prove("the steps are built in the order documented, none is missing", bool(steps) and steps[0].kind == kind)
            s = steps.pop(0)
            for k, v in params.items():
                x = s.params[k]
                if isinstance(v, SInt) or isinstance(x, SInt):
                    P.prove("the configured sizes reach their step", x is not None and v is not None and x == v)
                elif inspect.ismethod(v):
                    P.prove("every step gets its function", x == v)
                else:
                    P.prove("every step gets its configuration", x == v)

        if sbs is not None and sbs > 1:
            P.cover("shuffle")
            expect("ShuffleBufferDataset", size=sbs)
        if cookers:
            P.cover("cook")
            expect("MapDataset", map_fn=E.cook_crude_sample, stateless_map_fn=True)
        if encode:
            P.cover("encode")
            expect("MapDataset", map_fn=E.encode_sample, stateless_map_fn=not log)
        if pack:
            P.cover("pack")
            expect("PackingDataset", buffer_size=pbs, pre_packer=E.select_samples_to_pack, final_packer=E.pack_selected_samples, final_packer_stateless=not log)
        if group:
            P.cover("group")
            expect("GroupBatchDataset", fixed_batch_size=bs, sample_group_key=E.batch_group_criterion, batcher=E.batch, batcher_stateless=not log or not batch, drop_last=drop)
        elif bs is not None:
            P.cover("batch")
            expect("BatchDataset", batch_size=bs, batcher=E.batch, batcher_stateless=not log or not batch, drop_last=drop)
        if encode_batch:
            P.cover("encode batch")
            expect("MapDataset", map_fn=E.encode_batch, stateless_map_fn=not log)
        if vel is not None and vel > 0:
            P.cover("epochs")
            expect("EpochizeDataset", length=vel)
        if limit is not None and limit > 0:
            P.cover("limit")
            expect("LimitDataset", length=limit, reset_after_epoch=True)
        if log:
            P.cover("log")
            expect("LogSampleDataset", mode="train" if self.train else "val")
        P.prove("no step is built which is not configured", not steps)

    def rejected(self, P, E, fs, ws, wc):
        try:
            if self.train:
                E.build_train_datasets(datasets=list(zip(fs, ws)), worker_config=wc, batch_size=None)
            else:
                E.build_val_datasets(datasets=list(zip(fs, ws)), worker_config=wc, batch_size=None)
        except AssertionError:
            P.cover("rejected")
            return
        P.prove("batch functions without a batch size are rejected, not left out silently", False)


class BuildTrain(Build):
    name = "TaskEncoder.build_train_datasets"
    covers = ("one dataset", "blend", "shuffle", "cook", "encode", "pack", "group", "batch", "encode batch", "epochs", "log", "rejected")
    bounded = "1 to 3 datasets; any sizes, every combination of steps (several datasets: without packing and grouping)"


class BuildVal(Build):
    name = "TaskEncoder.build_val_datasets"
    train = False
    covers = ("one dataset", "concat", "cook", "encode", "pack", "group", "batch", "encode batch", "limit", "log", "rejected")
    bounded = "1 to 3 datasets; any sizes, every combination of steps (several datasets: without packing and grouping)"


class Loader:
    """A loaded (meta) dataset (stub)."""
    _stub = True

    def __init__(self, fs):
        self.fs, self.kw = fs, None

    def get_datasets(self, **kw):
        self.kw = kw
        return self.fs


class Getters(Contract):
    """The parameters of get_train_dataset / get_val_dataset(s) reach the dataset loader and the task encoder."""
    name = "get_train_dataset, get_val_dataset, get_val_datasets"
    covers = ("train", "val", "vals")

    def run(self, P):
        import megatron.energon.task_encoder.loader as L
        calls = []

        class Enc(Plain):
            def build_train_datasets(self, **kw):
                calls.append(("train", kw))
                return len(calls)

            def build_val_datasets(self, **kw):
                calls.append(("val", kw))
                return len(calls)
        fs = [(object(), P.real("w0")), (object(), P.real("w1"))]
        ld = Loader(fs)
        lk = []
        self.patch(L, "load_dataset", lambda path, **kw: (lk.append((path, kw)), ld)[1])
        wc = WC(rank=0, world_size=1, num_workers=P.int("num_workers", 0))
        v = {k: P.int(k) for k in ("batch_size", "packing_buffer_size", "shuffle_buffer_size", "max_samples_per_sequence", "virtual_epoch_length", "shuffle_over_epochs_multiplier", "limit")}
        drop = bool(P.choose(2))
        given = bool(P.choose(2))
        extra = dict(split_config="s.yaml", dataset_config="d.yaml", subflavor="sf", other=5) if given else {}
        which = P.choose(3)
        same = lambda kw, names: and_(*[kw.get(k) is not None and kw[k] == v[k] for k in names])
        E = Enc()
        if which == 0:
            P.cover("train")
            L.get_train_dataset("p", split_part="part", worker_config=wc, batch_size=v["batch_size"], batch_drop_last=drop, packing_buffer_size=v["packing_buffer_size"], shuffle_buffer_size=v["shuffle_buffer_size"],
                                max_samples_per_sequence=v["max_samples_per_sequence"], virtual_epoch_length=v["virtual_epoch_length"], shuffle_over_epochs_multiplier=v["shuffle_over_epochs_multiplier"], task_encoder=E, **extra)
            P.prove("one pipeline is built", len(calls) == 1 and calls[0][0] == "train")
            kw = calls[0][1]
            P.prove("the sizes reach the task encoder", same(kw, ("batch_size", "packing_buffer_size", "virtual_epoch_length", "shuffle_buffer_size")))
            P.prove("the sizes reach the datasets", same(ld.kw, ("max_samples_per_sequence", "shuffle_over_epochs_multiplier")))
            P.prove("all loaded datasets are used", kw["datasets"] is fs)
        else:
            a = dict(split_part="part", worker_config=wc, batch_size=v["batch_size"], batch_drop_last=drop, packing_buffer_size=v["packing_buffer_size"], limit=v["limit"], task_encoder=E, **extra)
            if which == 1:
                P.cover("val")
                L.get_val_dataset("p", **a)
                P.prove("one pipeline is built", len(calls) == 1 and calls[0][0] == "val")
                P.prove("all loaded datasets are used", calls[0][1]["datasets"] is fs)
            else:
                P.cover("vals")
                r = L.get_val_datasets("p", **a)
                P.prove("one pipeline per dataset", len(calls) == 2 and [x[0] for x in r] == [1, 2] and all(x[1] is y[0] for x, y in zip(r, fs)))
                P.prove("each from its own dataset", all(len(x[1]["datasets"]) == 1 and x[1]["datasets"][0][0] is y[0] for x, y in zip(calls, fs)))
            for _, kw in calls:
                P.prove("the sizes reach the task encoder", same(kw, ("batch_size", "packing_buffer_size", "limit")))
        for _, kw in calls:
            P.prove("the last batch is dropped if asked for", kw["batch_drop_last"] is drop)
            P.prove("the worker configuration is used", kw["worker_config"] is wc)
        P.prove("training and validation are told apart", ld.kw["training"] is (which == 0) and ld.kw["worker_config"] is wc and ld.kw["split_part"] == "part")
        P.prove("the dataset is loaded with its own parameters", lk == [("p", {k: extra[k] for k in ("split_config", "dataset_config", "subflavor") if k in extra})])
        P.prove("other parameters go to the datasets", ld.kw.get("other") == extra.get("other"))


CONTRACTS = [BuildTrain, BuildVal, Getters]

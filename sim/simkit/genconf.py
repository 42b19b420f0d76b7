"""Data design configurations as plain values, and what the generator makes of them."""
import os
import sys

from . import core

HERE = os.path.dirname(os.path.abspath(__file__))
CONFIG_FILE = os.path.join(HERE, "data_config_file.py")
FLAG_NAMES = ("output_dir", "data_design_config", "random_seed", "verbose")


def build(random_generator):
    from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
    from wfa_planning_evaluation_framework.data_generators.data_set_parameters import (
        DataSetParameters,
        GeneratorParameters,
    )
    from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import (
        FixedPriceGenerator,
    )
    from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import (
        HeavyTailedImpressionGenerator,
    )
    from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import (
        HeterogeneousImpressionGenerator,
    )
    from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import (
        HomogeneousImpressionGenerator,
    )
    from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import (
        IndependentOverlapDataSet,
    )
    from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import (
        SequentiallyCorrelatedOverlapDataSet,
    )

    cls = {
        "Fixed": FixedPriceGenerator,
        "Homogeneous": HomogeneousImpressionGenerator,
        "Heterogeneous": HeterogeneousImpressionGenerator,
        "HeavyTailed": HeavyTailedImpressionGenerator,
        "FullOverlap": DataSet,
        "Independent": IndependentOverlapDataSet,
        "Sequential": SequentiallyCorrelatedOverlapDataSet,
    }
    sim = core.current()
    conf = sim.world.sc["configs"][sim.cur.conf]
    rec = getattr(sim.cur, "gen", None)
    out, shared = [], {}
    for i, c in enumerate(conf["sets"]):
        kw = {}
        for k in ("pricing", "impression", "overlap"):
            if c.get(k):
                name, params = c[k]
                made = cls[name]
                if rec is not None and k != "overlap":
                    made = recording(made, k, rec, i)
                par = dict(params)
                if conf.get("shared"):
                    par = shared.setdefault(repr((name, params)), par)
                kw[k + "_generator_params"] = GeneratorParameters(name, made, par)
        if c.get("name"):
            kw["name"] = c["name"]
        n = c["size"]
        if conf.get("draw"):
            # the configuration itself is random
            n += int(random_generator.integers(1, 20))
        out.append(
            DataSetParameters(
                num_publishers=c["pubs"],
                largest_publisher_size=n,
                largest_to_smallest_publisher_ratio=c["ratio"],
                id=c["id"],
                **kw,
            )
        )
    if rec is not None:
        rec.names = [str(x) for x in out]
        rec.sizes = [x.largest_publisher_size for x in out]
    if conf.get("lazy"):
        return (x for x in out)
    return out


class Record:
    """What the impression and pricing generators returned during one generation."""

    def __init__(self):
        self.names, self.sizes = None, None
        self.impressions = []  # (data set, number of users, ids)
        self.prices = []  # (data set, ids, [(id, spend)])


def recording(base, kind, rec, i):
    if kind == "impression":

        class Impressions(base):
            def __init__(self, *args, **kwargs):
                base.__init__(self, *args, **kwargs)
                self.asked = kwargs["n"] if "n" in kwargs else args[0]

            def __call__(self):
                ids = base.__call__(self)
                rec.impressions.append((i, self.asked, list(ids)))
                return ids

        return Impressions

    class Prices(base):
        def __call__(self, impressions):
            ids = list(impressions)
            out = list(base.__call__(self, impressions))
            rec.prices.append((i, ids, list(out)))
            return out

    return Prices


def generator_module():
    from absl import flags

    name = core.PKG + ".data_generators.synthetic_data_design_generator"
    if name not in sys.modules:
        # every simulated process defines the flags anew
        for n in FLAG_NAMES:
            if n in flags.FLAGS:
                delattr(flags.FLAGS, n)
    __import__(name)
    return sys.modules[name]


def run_main(m, argv):
    """The generator as a program; no other task may run meanwhile."""
    from absl import flags

    flags.FLAGS.unparse_flags()
    try:
        rest = flags.FLAGS(["prog"] + argv)
        m.main(rest)
    finally:
        flags.FLAGS.mark_as_parsed()

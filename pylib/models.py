"""Configurations for model checking the specification itself."""
import core

BASE = dict(Fam='"classic"', Clf="TRUE", Feat=1, NStates=1, Labels=2, Per=2, Thresh=1, Boost="FALSE", Weighted="FALSE",
            MaxWeight=2, Sn=2, Sd=1, Loss='"MAE"', Ca=0, Cb=1, BoxM="FALSE", Mutant='"none"')


def consts(props=("C01",), **kw):
    d = dict(BASE)
    for k, v in kw.items():
        if isinstance(v, bool):
            v = "TRUE" if v else "FALSE"
        elif isinstance(v, str):
            v = f'"{v}"'
        assert k in d or k == "Which", k
        d[k] = v
    d["Props"] = "{" + ", ".join(f'"{p}"' for p in props) + "}"
    return "CONSTANTS " + " ".join(f"{k} = {v}" for k, v in d.items()) + "\n"


def machine_cfg(props, **kw):
    return ("SPECIFICATION Spec\n" + consts(props, **kw) +
            "INVARIANTS InRange FlagsOK WeightsOK ShapeOK\nPROPERTIES StepsAllowed\nVIEW LearnedState\nCHECK_DEADLOCK FALSE\n")


def machine(work, props, name, workers=2, **kw):
    what = "training machine, " + ", ".join(f"{k}={v}" for k, v in kw.items()) + "; invariants, and every step allowed by " + " ".join(props)
    return lambda: core.model_check(work, name, "Machine", machine_cfg(props, **kw), what, workers=workers)


def tight(work, which, name, **kw):
    cfg = "SPECIFICATION TSpec\n" + consts(("C01",), Which=which, **kw) + "CHECK_DEADLOCK FALSE\n"
    what = f"relations ({which}) equal the constructive feedback for all rows, " + ", ".join(f"{k}={v}" for k, v in kw.items())
    return lambda: core.model_check(work, name, "Tight", cfg, what, workers=1)

"""The TLC model runs of each property."""
from dataclasses import dataclass, field
@dataclass
class Model:
    name: str
    module: str
    cfg: str
    const: dict = field(default_factory=dict)   # constants that replace those of the cfg file
    gen: bool = False            # writes behaviours (ndjson) to $GEN
    refuted: bool = False        # a mutated model: TLC must find an invariant violated
    walks: int = 0               # random behaviours of this number instead of all (with gen)
    extra: tuple = ()
    timeout: int = 300
    workers: int = 1

def variants(module, cfg, names):
    return [Model("%s-%s" % (module, v), module, cfg, dict(Variant='"%s"' % v), refuted=True) for v in names]

def walks(module, cfg, length, seed, num, const=()):
    """Random behaviours of a model, longer than those that can be enumerated."""
    return Model(module + "Walk", module, cfg, dict(dict(const), MaxLen=str(length), EmitFrom=str(length), Emit="TRUE"), gen=True, walks=num,
                 extra=("-simulate", "num=%d" % num, "-depth", str(length + 1), "-seed", str(seed)))

def models(prop, tier, seed):
    deep = tier == "thorough"
    r = []
    if prop in ("C01", "C12") or deep: r.append(Model("FxSelfTest", "FxSelfTest", "FxSelfTest.cfg", dict(Full="TRUE") if deep else {}, workers=2, timeout=900))
    if prop == "C01":
        r.append(Model("TireLife", "TireLife", "TireLife.cfg", dict(Emit="TRUE", **(dict(Counts="{0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 40}") if deep else {})), gen=True, workers=2))
        r.append(walks("TireLife", "TireLife.cfg", 20 if deep else 9, seed, 400 if deep else 40))
        r += variants("TireLife", "TireLife.cfg", ["leftedge", "ends", "signed", "evenslope", "exponent", "zero", "keepwidth", "onlynew"])
    if prop in ("C18", "C19", "C03"): r.append(walks("MeshLife", "MeshLife.cfg", 20 if deep else 12, seed, 400 if deep else 60))
    if prop in ("C13", "C07", "C06", "C04", "C05", "C11"): r.append(walks("ShellLife", "ShellLifeGen.cfg", 20 if deep else 12, seed, 400 if deep else 60))
    if prop in ("C21", "C22"): r.append(walks("SfunLife", "SfunLifeGen.cfg", 20 if deep else 14, seed, 400 if deep else 60))
    if prop == "C26": r.append(walks("PoseLife", "PoseLife.cfg", 40 if deep else 20, seed, 400 if deep else 60))
    if prop == "C28": r.append(walks("CollLife", "CollLife.cfg", 20 if deep else 12, seed, 400 if deep else 60))
    if prop in ("C18", "C19", "C03"):
        r.append(Model("MeshLife", "MeshLife", "MeshLife.cfg", dict(Emit="TRUE"), gen=True))
        r += variants("MeshLife", "MeshLife.cfg", ["appends", "half", "shallow", "staletree", "samesize"])
        if deep: r.append(Model("MeshLifeAll", "MeshLife", "MeshLifeGen.cfg", gen=True))
    if prop in ("C13", "C07", "C06", "C04", "C05", "C11"):
        r.append(Model("ShellLife", "ShellLife", "ShellLife.cfg", {} if deep else dict(Sizes="{1, 3}", MaxLen="4"), workers=2, timeout=1200))
        r.append(Model("ShellLifeGen", "ShellLife", "ShellLifeGen.cfg", gen=True))
        r += variants("ShellLife", "ShellLife.cfg", ["shortout", "stalecand", "skipcanon", "lastonly", "keepbox"])
    for ext, p, vs in (("rdf", "C16", ["skipbad", "late", "sticky"]), ("obj", "C17", ["skipbad", "anyv", "zero"])):
        if prop in (p, "C18"):
            K = dict(Kind='"%s"' % ext); nm = "FileGen%s-" + ext
            r.append(Model(nm % "", "FileGen", "FileGen.cfg", dict(K, MaxLen="2", Emit="TRUE"), gen=True))
            if deep: r.append(Model(nm % 3, "FileGen", "FileGen.cfg", dict(K, MaxLen="3", Emit="TRUE"), gen=True, timeout=900))
            r += [Model("FileGen-%s-%s" % (ext, v), "FileGen", "FileGen.cfg", dict(K, MaxLen="2", Variant='"%s"' % v), refuted=True) for v in vs]
    if prop in ("C23", "C03"):
        r.append(Model("AabbTree", "AabbTree", "AabbTree.cfg", dict(MaxA="3", MaxB="3") if deep else dict(MaxA="2"), workers=4 if deep else 2, timeout=3000))
        if deep: r.append(Model("AabbTreeChain", "AabbTree", "AabbTree.cfg", dict(MaxA="4", MaxB="2", Shapes='"chain"'), workers=4, timeout=3000))
        if prop == "C23": r.append(Model("AabbGen", "AabbTree", "AabbGen.cfg", dict(MaxA="3", MaxB="3") if deep else {}, gen=True))
        r += [Model("AabbTree-" + v, "AabbTree", "AabbTree.cfg", dict(Variant='"%s"' % v, MaxA="2"), refuted=True) for v in ("firstbox", "strict", "noswap", "skiplast", "twice")]
    if prop in ("C21", "C22"):
        r.append(Model("SfunLife", "SfunLife", "SfunLifeGen.cfg", gen=True, workers=1))
        r.append(Model("SfunLifeRe", "SfunLife", "SfunLifeRe.cfg", dict(MaxLen="7") if deep else {}, gen=True, workers=1))
        r.append(Model("SfunLifeCheck", "SfunLife", "SfunLife.cfg", dict(MaxLen="9") if deep else {}, workers=2, timeout=1200))
        r += variants("SfunLife", "SfunLife.cfg", ["cached", "oldflat", "partial", "sticky", "flatflag", "endfrees"])
    if prop == "C26":
        r.append(Model("PoseLife", "PoseLife", "PoseLife.cfg", dict(Emit="TRUE"), gen=True))
        r += variants("PoseLife", "PoseLife.cfg", ["worldaxes", "left", "origin", "compose", "setupkeeps"])
    lat = dict(C02=("branch", "noclip", "chordmid", "bylength"), C04=("corners", "cap"), C05=("corners",), C06=("cap", "noclip"), C07=("noclip",), C08=("branch", "bylength"), C09=("winding",), C10=("lastfriction",),
               C12=("winding", "chordmid"), C14=("branch",), C15=("branch", "bothsides"), C27=("noclip", "lastfriction"))
    if prop in lat:
        sd = ("-seed", str(seed))
        r.append(Model("Lattice", "Lattice", "Lattice.cfg", dict(Per="1500" if deep else "60", Kids="4" if deep else "2", Emit="TRUE"), gen=True, extra=sd, workers=8 if deep else 1, timeout=3600))
        r += [Model("Lattice-" + v, "Lattice", "Lattice.cfg", dict(Per="60", Variant='"%s"' % v), refuted=True, extra=sd) for v in lat[prop]]
    if prop in ("C24", "C25"):
        sd = ("-seed", str(seed))
        r.append(Model("PrimsGen", "PrimsMC", "PrimsMC.cfg", dict(Per="0" if deep else "45", Emit="TRUE"), gen=True, workers=8 if deep else 3, extra=sd, timeout=7200))
        if prop == "C24": r += [Model("PrimsMC-" + v, "PrimsMC", "PrimsMC.cfg", dict(Variant='"%s"' % v), refuted=True, extra=sd) for v in ("oneend", "beyond", "facing", "rim")]
        else: r += [Model("PrimsMC-" + v, "PrimsMC", "PrimsMC.cfg", dict(Variant='"%s"' % v), refuted=True, extra=sd) for v in ("slack", "oneway")]
    if prop == "C28":
        r.append(Model("CollLife", "CollLife", "CollLife.cfg", dict(MaxLen="8") if deep else {}, workers=2, timeout=3000))
        r.append(Model("CollLifeGen", "CollLife", "CollLife.cfg", dict(MaxLen="5" if deep else "4", Emit="TRUE"), gen=True))
        r += variants("CollLife", "CollLife.cfg", ["holes", "onlyfirst", "treestays", "samesize"])
    return r

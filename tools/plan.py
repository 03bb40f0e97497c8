"""What each check runs: campaign profiles, bounded models, known findings."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "the program runs natively (x86-64) on a model of the runtime: account metas, CPI privileges, rent and rollback as specified in DESIGN.md",
    "system, token, stake and the callee programs are simulated by the harness",
    "hashing and signature verification are real for secp256k1; secp256r1 verification is the runtime precompile's and is simulated",
]

ALL = ["roles", "auth", "sol", "token", "dest", "stake", "scope", "programs", "damage", "sub1", "sub2", "life",
       "lamports", "batch", "classify", "multi", "nest", "authk", "authr", "authp", "auths"]
# profiles per property; repeated = more runs
FOCUS = {
    "C01": ["roles"] * 8 + ["nest"] + ["auth", "lamports", "life", "sub2", "sub1", "multi", "classify", "scope"],
    "C02": ["roles"] * 9 + ["nest"] + ["life"] * 2 + ["auth"] * 2 + ["multi"] * 2 + ["lamports"],
    "C03": ["roles"] * 6 + ["nest"] + ["auth"] * 2 + ["life"] * 2 + ["sub1"] * 2 + ["sub2"] * 2 + ["programs", "damage"],
    "C04": ["auth"] * 2 + ["authk", "authr", "authp", "auths"] + ["multi"] * 2 + ["nest"] * 2 + ["life", "sub1", "sub2", "roles", "lamports", "sol", "batch", "classify"],
    "C05": ["auth"] * 2 + ["authk"] * 4 + ["authr"] * 4 + ["multi", "roles", "life", "sub1", "sub2", "lamports"],
    "C06": ["auth"] * 3 + ["auths"] * 8 + ["roles", "life", "sub1", "sub2", "multi"],
    "C07": ["auth"] * 3 + ["authr"] * 9 + ["roles", "life", "sub2", "multi"],
    "C08": ["auth"] * 3 + ["authp"] * 9 + ["roles", "life", "sub1", "multi"],
    "C09": ["auth"] * 5 + ["authk", "authr", "authp", "auths"] + ["nest"] + ["roles"] * 4 + ["multi", "sub1", "sub2"],
    "C10": ["sol"] * 9 + ["dest"] * 3 + ["batch", "programs", "lamports", "multi"],
    "C11": ["sol"] * 4 + ["token"] * 3 + ["dest"] * 4 + ["stake"] * 2 + ["scope"] * 2 + ["roles"],
    "C12": ["token"] * 9 + ["dest"] * 3 + ["classify"] * 2 + ["damage", "batch"],
    "C13": ["dest"] * 13 + ["sol", "token", "batch"],
    "C14": ["stake"] * 13 + ["classify"] * 2 + ["damage"],
    "C15": ["scope"] * 13 + ["classify"] * 2 + ["multi"],
    "C16": ["programs"] * 10 + ["nest"] * 2 + ["damage"] * 2 + ["batch"] * 2 + ["sol", "multi"],
    "C17": ["damage"] * 9 + ["nest"] * 2 + ["classify"] * 2 + ["token"] * 2 + ["programs", "stake"],
    "C18": ["roles"] * 11 + ["lamports"] * 2 + ["auth", "sub2", "multi"],
    "C19": ["roles"] * 10 + ["life"] * 2 + ["auth"] * 2 + ["sol", "dest"],
    "C20": ["sub1"] * 12 + ["nest"] + ["multi"] * 2 + ["life"],
    "C21": ["sub2"] * 12 + ["nest"] + ["multi"] * 2 + ["life"],
    "C22": ["life"] * 10 + ["roles"] * 3 + ["lamports", "multi", "sub2"],
    "C23": ["life"] * 11 + ["nest"] + ["roles"] * 2 + ["lamports", "multi", "sub1"],
    "C24": ["lamports"] * 9 + ["nest"] + ["life"] * 2 + ["roles"] * 2 + ["sub1", "sub2", "sol"],
    "C25": ["batch"] * 8 + ["nest"] * 3 + ["programs"] * 2 + ["sub1", "sub2", "sol", "token"],
    "C26": ["classify"] * 9 + ["token", "stake", "scope", "dest", "damage", "multi", "batch"],
    "C27": ["multi"] * 10 + ["nest"] * 3 + ["sub2"] * 2 + ["life"] * 2,
    "C28": ["roles"] * 7 + ["auth"] * 3 + ["life", "sub1", "sub2", "lamports", "multi", "scope"],
}

def jobs(prop, tier, seed):
    """[(name, swigh arguments)]"""
    runs, steps, rounds = (75, 32, 1) if tier == "quick" else (150, 40, 12)
    out = []
    for rd in range(rounds):
        for i, p in enumerate(FOCUS[prop]):
            s = seed * 1000 + rd * 100 + i + 7
            out.append(("%s-%d-%d" % (p, rd, i), ["campaign", p, "--seed", str(s), "--runs", str(runs), "--steps", str(steps)]))
    return out

# bounded models per property: (model, shards); depths per tier
DEPTH = {"limits": (6, 8), "roles": (6, 8), "auth": (6, 9), "batch": (4, 5), "sub1": (7, 10), "sub2": (8, 12),
         "life": (4, 6), "multi": (8, 10), "nest": (9, 10)}
SHARDS = {"limits": 16, "roles": 6, "auth": 8, "batch": 9, "sub1": 5, "sub2": 6, "life": 4, "multi": 3, "nest": 5}
SOL, TOK, STK, SCP = range(1, 7), range(7, 13), range(13, 15), range(15, 17)
MODELS = {
    "C01": [("roles", None)], "C02": [("roles", None)], "C03": [("roles", None)],
    "C04": [("auth", None), ("multi", None), ("nest", None)], "C05": [("auth", None)], "C06": [("auth", None)], "C07": [("auth", None)],
    "C08": [("auth", None)], "C09": [("auth", None), ("roles", None)],
    "C10": [("limits", SOL), ("batch", None)], "C11": [("limits", None)], "C12": [("limits", TOK), ("batch", None)],
    "C13": [("limits", list(SOL) + list(TOK))], "C14": [("limits", STK), ("batch", None)], "C15": [("limits", SCP)],
    "C16": [("batch", None), ("nest", None)], "C17": [("batch", None)], "C18": [("roles", None)], "C19": [("roles", None), ("life", None)],
    "C20": [("sub1", None)], "C21": [("sub2", None)], "C22": [("life", None)], "C23": [("life", None)],
    "C24": [("life", None), ("roles", None)], "C25": [("batch", None), ("nest", None)], "C26": [("batch", None)],
    "C27": [("multi", None), ("nest", None)], "C28": [("roles", None), ("auth", None)],
}

def models(prop, tier):
    """[(model, shard, depth)]"""
    return [(m, s, DEPTH[m][tier != "quick"]) for m, ss in MODELS[prop] for s in (ss or range(1, SHARDS[m] + 1))]

def by_op(op):
    """properties concerned when an operation crashes, hangs or leads nowhere"""
    i = op.get("i")
    m = {"create": "C19 C22", "add": "C01 C03 C19", "rem": "C01 C02", "upd": "C18 C19", "sess": "C06",
         "repl": "C09", "claim": "C23", "closetok": "C23", "closeswig": "C23", "mig": "C22", "xassets": "C24",
         "cs1": "C20", "ss1": "C20 C25", "tg1": "C20", "wd1": "C20", "cs2": "C21", "ss2": "C21 C25", "tg2": "C21",
         "wd2": "C21", "sign": "C25 C26", "dec": "C25", "lay": "C02 C19 C23"}
    r = m.get(i, "").split()
    k = (op.get("pf") or {}).get("m")
    return r + {"k1": ["C05"], "r1": ["C07"], "pe": ["C08"]}.get(k, []) + ["C01", "C04", "C28"]

def diff(a, b, p=""):
    out = []
    def go(a, b, p):
        if isinstance(a, dict) and isinstance(b, dict):
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k):
                    go(a.get(k), b.get(k), p + "." + k)
        elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    go(x, y, p + "[%d]" % i)
        else:
            out.append("%s: specified %s, program %s" % (p.lstrip("."), json.dumps(a)[:120], json.dumps(b)[:120]))
    go(a, b, p)
    return out

def known_findings():
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding:"):
                head, _, text = l[len("finding:"):].strip().partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split())
                d["text"] = text
                out.append(d)
    return out

def match_finding(fs, prop, t, d):
    """the listed finding this disagreement is an instance of, if any"""
    op, pf = t["op"], t["op"].get("pf") or {}
    for f in fs:
        if d["what"] == f["what"] and op["i"] in f["op"].split(",") and pf.get("m") in f["proof"].split(",") \
                and pf.get("v") == f["variant"]:
            return f
    return None

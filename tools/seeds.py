#!/usr/bin/env python3
"""Planted bugs: writes seeded/<id>/{patch.diff,scenario.json,meta.json,demo...}.
   seeds.py [id...]   (all when none is given; $REPO (default /repo) must be clean)"""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "crates/kuadrant-filter/src/"
W = "crates/wasm-shim/src/"
PIPE = K + "kuadrant/pipeline/"
SEEDS = {}

def seed(id, prop, edits, needs, breaks, scenario):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, scenario=scenario)

def svc(kind="ratelimit", endpoint="cl0", mode="deny", timeout="100ms", **k):
    return dict(type=kind, endpoint=endpoint, failureMode=mode, timeout=timeout, **k)

def grpc(service, var="r", on_reply=(), predicate="true", guard=True, seq=False, domain="'d'", **k):
    a = dict(type="grpc", service=service, var=var, predicate=predicate, isGuard=guard, terminal=False, onReply=list(on_reply),
             messageBuilder="envoy.service.ratelimit.v3.RateLimitRequest { domain: %s }" % domain)
    if seq: a["execution"] = "sequential"
    a.update(k)
    return a

def deny(status=403, predicate="true", body="'no'", headers="[]", **k):
    return dict(type="deny", predicate=predicate, terminal=True, denyWith="DenyResponse { status: %du, headers: %s, body: %s }" % (status, headers, body), **k)

def headers(target, pairs, predicate="true", **k):
    return dict(type="headers", target=target, predicate=predicate, terminal=False, headers=pairs, **k)

def store(path, value, predicate="true", export=False, **k):
    return dict(type="store", path=path, value=value, predicate=predicate, terminal=False, exportToHost=export, **k)

def legacy(service, scope="scope", **k):
    return dict(service=service, scope=scope, **k)

def aset(actions, hosts=("a.com",), preds=(), name="set"):
    return dict(name=name, routeRuleConditions=dict(hostnames=list(hosts), predicates=list(preds)), actions=list(actions))

def cfg(services, sets, **k):
    return dict(configure=dict(services=services, actionSets=sets, **k), action="true")

def stream(name="s1", host="a.com", hdrs=(), **props):
    h = [[":method", "GET"], [":path", "/p"], [":authority", host]] + [list(x) for x in hdrs]
    p = {"request.host": host, "request.path": "/p", "request.url_path": "/p", "request.method": "GET", "source.address": "1.2.3.4:5", "source.port": 5}
    p.update({k.replace("__", "."): v for k, v in props.items()})
    return dict(stream=name, headers=h, props=p)

def step(kind, s="s1", action=None, **k):
    d = {kind: s}
    if action: d["action"] = action
    d.update(k)
    return d

exec(open(os.path.join(V, "tools", "seeds_list.py")).read())

def main():
    os.chdir(os.environ.get("REPO", "/repo"))
    assert not subprocess.check_output(["git", "status", "--porcelain"]).strip(), "the repository is not clean"
    for id in sys.argv[1:] or sorted(SEEDS):
        s = SEEDS[id]
        d = os.path.join(V, "seeded", id)
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in s["edits"]:
                t = open(f).read()
                assert t.count(old) == 1, (id, f, "occurs", t.count(old), "times", old)
                open(f, "w").write(t.replace(old, new))
            open(os.path.join(d, "patch.diff"), "wb").write(subprocess.check_output(["git", "diff"]))
        finally:
            subprocess.check_call(["git", "checkout", "-q", "--", "."])
        json.dump(s["scenario"], open(os.path.join(d, "scenario.json"), "w"), indent=1)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        subprocess.check_call(["bash", os.path.join(V, "tools", "mkseed.sh"), id])
        print(id)

main()

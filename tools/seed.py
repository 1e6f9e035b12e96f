#!/usr/bin/env python3
"""Create and confirm a planted bug:  tools/seed.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO)
                                     tools/seed.py --recheck [ID...]
Works in the scratch copy /tmp/seedrepo; writes /verif/seeded/<ID>/ only when everything was confirmed."""
import json, os, subprocess, sys, shutil
W = "/tmp/seedrepo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO_SH = r'''#!/bin/bash
# run with cwd at the repository; exit 0 when the property holds, nonzero when the demonstration fails
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE/demo.rs" "$D/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "vpdemo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
ntex-amqp = { path = "$REPO" }
ntex-amqp-codec = { path = "$REPO/codec" }
ntex = { version = "3.6", features = ["tokio"] }
ntex-io = "3.9"
ntex-util = "3.4"
ntex-service = "4.6"
ntex-bytes = "1.5"
ntex-codec = "1.1"
[patch.crates-io]
ntex-amqp = { path = "$REPO" }
ntex-amqp-codec = { path = "$REPO/codec" }
[profile.dev]
debug = false
T
cd "$D" || exit 3
export CARGO_TARGET_DIR="$D/target"
cargo build --offline -q 2> "$D/build.log" || { tail -30 "$D/build.log"; exit 3; }
timeout 60 "$D/target/debug/vpdemo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def prep():
    if not os.path.isdir(W):
        sh("cp -a /repo %s" % W)
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (W, W, W, W))


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def tests():
    env = dict(os.environ)
    r = sh(". /opt/vp/env.sh; cd %s && cargo test --workspace --no-fail-fast --offline --no-default-features "
           "--features=ntex/tokio -- --test-threads 8" % W, env=env)
    out = r.stdout + r.stderr
    return r.returncode == 0, out


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=W)
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def main():
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        for i in ids:
            d = V + "/seeded/" + i
            prep()
            a, o1 = demo(d)
            p = sh("git -C %s apply %s/patch.diff" % (W, d))
            if p.returncode:
                print(i, "PATCH FAILS", p.stderr)
                continue
            b, o2 = demo(d)
            print(i, "clean", a, "patched", b)
        prep()
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    prep()
    tmp = "/tmp/seednew/" + ns["ID"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/demo.rs", "w").write(ns["DEMO"])
    open(tmp + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(tmp + "/demo.sh", 0o755)
    rc, out = demo(tmp)
    print("demo on clean tree:", rc)
    if rc:
        print(out)
        return 1
    for f, old, new in ns["EDITS"]:
        p = W + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print("pattern count", s.count(old), f, old)
            return 1
        open(p, "w").write(s.replace(old, new))
    diff = sh("git -C %s diff" % W).stdout
    open(tmp + "/patch.diff", "w").write(diff)
    ok, out = tests()
    print("tests with patch:", ok)
    if not ok:
        print(out[-3000:])
        return 1
    rc, out = demo(tmp)
    print("demo with patch:", rc)
    print(out[-600:])
    if rc == 0 or rc == 3:
        return 1
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(tmp + "/meta.json", "w"), indent=1)
    d = V + "/seeded/" + ns["ID"]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    prep()
    print("kept", d)


sys.exit(main())

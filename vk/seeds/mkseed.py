#!/usr/bin/env python3
"""Write the folders of planted bugs: python3 vk/seeds/mkseed.py [id...]
Each seed of seeds.py has edits (file, old, new), applied in /repo and undone."""
import os, subprocess, sys, json, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
REPO = "/repo"
sys.path.insert(0, HERE)
from seeds import SEEDS

CARGO = """[package]
name = "vpdemo"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[[bin]]
name = "vpdemo"
path = "main.rs"

[dependencies]
rustqubo = { path = "/repo", default-features = false }
annealers = { path = "/repo/annealers" }
classical_solver = { path = "/repo/classical_solver" }
rand = "0.7"

[profile.dev]
opt-level = 1
debug = 0
overflow-checks = true
incremental = false
"""
DEMO = """#!/bin/bash
# exit 0 where the property holds, nonzero where it is broken
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
work=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 3
cp "$here/Cargo.toml" "$here/Cargo.lock" "$here/main.rs" "$here/common.rs" "$work/" || exit 3
(cd "$work" && timeout 280 cargo run --offline -q --target-dir "${VPDEMO_TARGET:-$work/target}")
rc=$?
case "$work" in /tmp/vpdemo.*) rm -rf "$work" ;; esac
exit $rc
"""

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

def main():
    want = sys.argv[1:]
    for sid, s in SEEDS.items():
        if want and sid not in want:
            continue
        d = os.path.join(ROOT, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        assert not sh("git", "-C", REPO, "status", "--short").stdout.strip()
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, (sid, f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh("git", "-C", REPO, "diff").stdout
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "Cargo.toml"), "w").write(CARGO)
        lock = open(os.path.join(ROOT, "harness", "Cargo.lock")).read()
        open(os.path.join(d, "Cargo.lock"), "w").write(lock.replace('name = "vh"', 'name = "vpdemo"'))
        shutil.copy(os.path.join(HERE, "common.rs"), d)
        open(os.path.join(d, "main.rs"), "w").write(
            "#![allow(unused_imports, unused_mut)]\n#[macro_use]\nmod common;\nuse common::*;\n"
            "use annealers::model::*;\nuse annealers::node::*;\nuse annealers::order::*;\nuse annealers::repr::BinaryRepr;\n"
            "use annealers::set::NodeSet;\nuse annealers::solution::SingleSolution;\nuse annealers::solver::*;\n"
            "use annealers::variable::*;\nuse classical_solver::algo::simulated_annealing;\nuse classical_solver::beta::BetaType;\n"
            "use classical_solver::sa::SimulatedAnnealerGenerator;\n"
            "use rustqubo::solve::SimpleSolver;\nuse rustqubo::Expr;\nuse std::collections::{BTreeSet, HashMap};\nuse std::sync::{Arc, Mutex};\n\n"
            + s["demo"].strip() + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(sid, len(diff.splitlines()))

main()

#!/usr/bin/env python3
import os, sys
def mke2e(verif, repo, dst, chunks):
    os.makedirs(dst + "/src", exist_ok=True)
    text = """[package]
name = "e2e"
version = "0.1.0"
edition = "2021"
[dependencies]
parsegen = { path = "%s" }
rt = { path = "%s/engine/e2e/rt" }
oracle = { path = "%s/engine/oracle" }
[workspace]
[profile.dev]
debug = false
incremental = false
""" % (repo, verif, verif)
    for i in range(chunks):
        text += '[[bin]]\nname = "chunk%d"\npath = "src/chunk%d.rs"\n' % (i, i)
    text += '[[bin]]\nname = "patterns"\npath = "src/patterns.rs"\n'
    text += '[[bin]]\nname = "long"\npath = "src/long.rs"\n'
    p = dst + "/Cargo.toml"
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
    src = open(verif + "/engine/e2e/long.rs").read()
    p = dst + "/src/long.rs"
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)
    src = open(verif + "/engine/e2e/patterns.rs").read()
    sys.path.insert(0, verif + "/engine/e2e")
    import genpat
    mods, names = genpat.generate(int(os.environ.get("VERIF_SEED") or 1), 12 if os.environ.get("VERIF_TIER") == "thorough" else 5)
    src = src.replace("\nfn main() {", mods + "\nfn main() {", 1).replace("shadow, many);", "shadow, many, " + ", ".join(names) + ");")
    p = dst + "/src/patterns.rs"
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)
if __name__ == "__main__":
    mke2e(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]))

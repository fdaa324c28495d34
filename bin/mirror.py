#!/usr/bin/env python3
"""Mirror the crates zkcrypto and kzg of /repo, as they are now, into build/tree.

The git dependency blst cannot be fetched in this sandbox, so what needs it is left out:

  zkcrypto/Cargo.toml     the "blst = ..." line, and the lines naming kzg-bench / criterion and the bench
                          targets (only tests and benches use them) are dropped
  zkcrypto/src/utils.rs   top-level items that mention blst are blanked (conversions to and from blst types)
  zkcrypto/src/finite.rs  the same (all of it)

Every other source file is copied byte for byte.  A file is only written when its content changed, so
cargo rebuilds incrementally; files that are gone from /repo are removed from the mirror.
"""
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TREE = os.path.join(HERE, "build", "tree")
FILTERED = ("zkcrypto/src/utils.rs", "zkcrypto/src/finite.rs")


def drop_blst_items(text):
    """Blank the top-level items naming blst.  Unbalanced text is kept whole, for rustc to reject."""
    out, item, depth = [], [], 0
    for line in text.split("\n"):
        code = line.split("//")[0]
        if not item and not code.strip():
            out.append(line)
            continue
        item.append(line)
        depth += sum(code.count(c) for c in "{([") - sum(code.count(c) for c in "})]")
        if depth < 0:
            return text
        if depth == 0 and code.rstrip().endswith(("}", ";")):
            code = "\n".join(x.split("//")[0] for x in item)
            out += [""] * len(item) if re.search("blst", code, re.I) else item
            item = []
    return text if item else "\n".join(out)


def manifest(text):
    text = re.sub(r"(?m)^(blst|kzg-bench|criterion)\s*=.*$", "", text)
    text = re.sub(r"(?m)^\[\[bench\]\]\n(?:[a-z_]+\s*=.*\n?)*", "", text)
    return text + "\n[workspace]\n"


def content(rel):
    with open(os.path.join(REPO, rel), "rb") as f:
        data = f.read()
    if rel == "zkcrypto/Cargo.toml":
        data = manifest(data.decode()).encode()
    elif rel in FILTERED:
        data = drop_blst_items(data.decode()).encode()
    return data


def sync():
    wanted = set()
    for crate in ("zkcrypto", "kzg"):
        for sub in ("Cargo.toml", "src"):
            top = os.path.join(REPO, crate, sub)
            paths = [top] if os.path.isfile(top) else [
                os.path.join(r, n) for r, _, ns in os.walk(top) for n in ns]
            for path in paths:
                rel = os.path.relpath(path, REPO)
                wanted.add(rel)
                dst = os.path.join(TREE, rel)
                data = content(rel)
                if os.path.exists(dst):
                    with open(dst, "rb") as f:
                        if f.read() == data:
                            continue
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                with open(dst, "wb") as f:
                    f.write(data)
    for root, _, files in os.walk(TREE):
        for name in files:
            rel = os.path.relpath(os.path.join(root, name), TREE)
            if rel not in wanted:
                os.remove(os.path.join(root, name))
    if not wanted:
        sys.exit("nothing found in " + REPO)


if __name__ == "__main__":
    sync()

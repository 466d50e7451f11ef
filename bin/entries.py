import os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def blocks():
    """(entry, body text) of the functions inside harness!{...} blocks."""
    d = VERIF + "/harness/src"
    for f in sorted(os.listdir(d)):
        if f in ("lib.rs", "sx.rs"):
            continue
        s = open(f"{d}/{f}").read()
        for blk in re.findall(r"^harness! \{\n(.*?)^\}", s, re.S | re.M):
            for m in re.finditer(r"^    fn (\w+)\(\) \{(.*?)^    \}", blk, re.S | re.M):
                yield m.group(1), m.group(2)


def all_entries():
    return [n for n, _ in blocks()]


def body(entry):
    return dict(blocks())[entry]

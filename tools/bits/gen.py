#!/usr/bin/env python3
"""Writes spec/bits.rs: shifts and masks by constants as arithmetic, each proved by bit-vector reasoning."""
out = ["// Shifts and masks by constants, as arithmetic. Generated by tools/bits/gen.py.\n"]
for w in (8, 16, 32, 64):
    t = f"u{w}"
    top = 2 ** w - 1
    f = []
    if w == 8:
        chain = "x"
        for s in range(7, 0, -1):
            chain = (f"if s == {s} {{ x / {2**s} }} else {{ {chain} }}")
        f.append(f"forall|x: u8, s: u8| s < 8 ==> #[trigger] (x >> s) == ({chain})")
    shifts = [s for s in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24, 32, 40, 48, 56) if s < w]
    for s in shifts:
        if w > 8:
            f.append(f"forall|x: {t}| #[trigger] (x >> {s}) == x / {2**s}")
        f.append(f"forall|x: {t}| x <= {top >> s} ==> #[trigger] (x << {s}) == x * {2**s}")
    masks = set()
    if w == 8:
        masks = {2**b - 2**a for a in range(8) for b in range(a + 1, 9)}
    else:
        masks = {2**k - 1 for k in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 15, 16, 24, 32)} | {2**k for k in range(16)} | {0x3E0, 0x7C00, 0x1F00, 0xFF00, 0xF0}
        masks = {m for m in masks if m <= top}
    for m in sorted(masks):
        a = (m & -m).bit_length() - 1
        n = m >> a
        e = "x" if a == 0 else f"x / {2**a}"
        if m != top >> a << a:
            e = f"{e} % {n + 1}" if a == 0 else f"({e}) % {n + 1}"
        if a:
            e = f"({e}) * {2**a}"
        f.append(f"forall|x: {t}| #[trigger] (x & {m}) == {e}")
    for s in [s for s in (1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 32) if s < w]:
        f.append(f"forall|x: {t}, y: {t}| y < {2**s} && x % {2**s} == 0 ==> #[trigger] (x | y) == x + y")
        f.append(f"forall|x: {t}, y: {t}| x < {2**s} && y % {2**s} == 0 ==> #[trigger] (x | y) == x + y")
    out.append(f"pub proof fn lemma_bits_{t}()\n    ensures\n" + "".join(f"        {x},\n" for x in f) + "{\n"
               + "".join("    assert(" + " && ".join(f"({x})" for x in f[k:k + 12]) + ") by (bit_vector);\n" for k in range(0, len(f), 12)) + "}\n")
open(__file__.replace("tools/bits/gen.py", "spec/bits.rs"), "w").write("".join(out))
